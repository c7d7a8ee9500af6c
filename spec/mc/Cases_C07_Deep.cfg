\* MODULE: Cases
\* THOROUGH
\* BEHAVIOURS: C07
CONSTANTS
  Prop = "C07"
  Deep = TRUE
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
