\* MODULE: Cases
\* BEHAVIOURS: C16
CONSTANTS
  Prop = "C16"
  Deep = FALSE
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
