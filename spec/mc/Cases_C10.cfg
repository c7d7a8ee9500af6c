\* MODULE: Cases
\* BEHAVIOURS: C10
CONSTANTS
  Prop = "C10"
  Deep = FALSE
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
