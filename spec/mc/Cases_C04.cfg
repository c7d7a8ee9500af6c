\* MODULE: Cases
\* BEHAVIOURS: C04
CONSTANTS
  Prop = "C04"
  Deep = FALSE
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
