\* MODULE: Cases
\* BEHAVIOURS: C06
CONSTANTS
  Prop = "C06"
  Deep = FALSE
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
