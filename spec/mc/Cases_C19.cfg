\* MODULE: Cases
\* BEHAVIOURS: C19
CONSTANTS
  Prop = "C19"
  Deep = FALSE
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
