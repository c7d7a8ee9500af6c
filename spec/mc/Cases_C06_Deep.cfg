\* MODULE: Cases
\* THOROUGH
\* BEHAVIOURS: C06
CONSTANTS
  Prop = "C06"
  Deep = TRUE
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
