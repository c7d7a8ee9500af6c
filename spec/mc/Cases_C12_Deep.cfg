\* MODULE: Cases
\* THOROUGH
\* BEHAVIOURS: C12
CONSTANTS
  Prop = "C12"
  Deep = TRUE
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
