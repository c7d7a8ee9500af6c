\* MODULE: Cases
\* BEHAVIOURS: C03
CONSTANTS
  Prop = "C03"
  Deep = FALSE
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
