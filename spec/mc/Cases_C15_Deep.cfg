\* MODULE: Cases
\* THOROUGH
\* BEHAVIOURS: C15
CONSTANTS
  Prop = "C15"
  Deep = TRUE
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
