\* MODULE: Cases
\* BEHAVIOURS: C21
CONSTANTS
  Prop = "C21"
  Deep = FALSE
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
