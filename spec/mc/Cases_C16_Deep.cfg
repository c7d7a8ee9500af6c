\* MODULE: Cases
\* THOROUGH
\* BEHAVIOURS: C16
CONSTANTS
  Prop = "C16"
  Deep = TRUE
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
