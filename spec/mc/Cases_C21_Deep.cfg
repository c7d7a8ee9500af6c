\* MODULE: Cases
\* THOROUGH
\* BEHAVIOURS: C21
CONSTANTS
  Prop = "C21"
  Deep = TRUE
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
