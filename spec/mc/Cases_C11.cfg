\* MODULE: Cases
\* BEHAVIOURS: C11
CONSTANTS
  Prop = "C11"
  Deep = FALSE
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
