\* MODULE: Cases
\* THOROUGH
\* BEHAVIOURS: C09
CONSTANTS
  Prop = "C09"
  Deep = TRUE
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
