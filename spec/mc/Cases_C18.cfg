\* MODULE: Cases
\* BEHAVIOURS: C18
CONSTANTS
  Prop = "C18"
  Deep = FALSE
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
