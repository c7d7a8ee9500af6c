\* MODULE: Cases
\* THOROUGH
\* BEHAVIOURS: C17
CONSTANTS
  Prop = "C17"
  Deep = TRUE
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
