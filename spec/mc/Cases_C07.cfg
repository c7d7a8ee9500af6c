\* MODULE: Cases
\* BEHAVIOURS: C07
CONSTANTS
  Prop = "C07"
  Deep = FALSE
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
