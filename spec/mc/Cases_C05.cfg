\* MODULE: Cases
\* BEHAVIOURS: C05
CONSTANTS
  Prop = "C05"
  Deep = FALSE
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
