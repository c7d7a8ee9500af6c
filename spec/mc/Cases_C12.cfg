\* MODULE: Cases
\* BEHAVIOURS: C12
CONSTANTS
  Prop = "C12"
  Deep = FALSE
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
