\* MODULE: Cases
\* THOROUGH
\* BEHAVIOURS: C13
CONSTANTS
  Prop = "C13"
  Deep = TRUE
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
