\* MODULE: Cases
\* BEHAVIOURS: C08
CONSTANTS
  Prop = "C08"
  Deep = FALSE
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
