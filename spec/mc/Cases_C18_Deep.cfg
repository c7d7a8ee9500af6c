\* MODULE: Cases
\* THOROUGH
\* BEHAVIOURS: C18
CONSTANTS
  Prop = "C18"
  Deep = TRUE
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
