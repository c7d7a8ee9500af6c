\* MODULE: Cases
\* BEHAVIOURS: C14
CONSTANTS
  Prop = "C14"
  Deep = FALSE
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
