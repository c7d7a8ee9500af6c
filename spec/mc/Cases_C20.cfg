\* MODULE: Cases
\* BEHAVIOURS: C20
CONSTANTS
  Prop = "C20"
  Deep = FALSE
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
