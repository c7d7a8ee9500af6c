\* MODULE: Cases
\* BEHAVIOURS: C13
CONSTANTS
  Prop = "C13"
  Deep = FALSE
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
