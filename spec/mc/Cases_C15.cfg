\* MODULE: Cases
\* BEHAVIOURS: C15
CONSTANTS
  Prop = "C15"
  Deep = FALSE
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
