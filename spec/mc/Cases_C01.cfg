\* MODULE: Cases
\* BEHAVIOURS: C01
CONSTANTS
  Prop = "C01"
  Deep = FALSE
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
