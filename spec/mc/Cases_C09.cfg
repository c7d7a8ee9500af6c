\* MODULE: Cases
\* BEHAVIOURS: C09
CONSTANTS
  Prop = "C09"
  Deep = FALSE
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
