\* MODULE: Cases
\* THOROUGH
\* BEHAVIOURS: C10
CONSTANTS
  Prop = "C10"
  Deep = TRUE
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
