\* MODULE: Cases
\* THOROUGH
\* BEHAVIOURS: C04
CONSTANTS
  Prop = "C04"
  Deep = TRUE
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
