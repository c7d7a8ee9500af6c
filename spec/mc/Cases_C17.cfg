\* MODULE: Cases
\* BEHAVIOURS: C17
CONSTANTS
  Prop = "C17"
  Deep = FALSE
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
