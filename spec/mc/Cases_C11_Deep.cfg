\* MODULE: Cases
\* THOROUGH
\* BEHAVIOURS: C11
CONSTANTS
  Prop = "C11"
  Deep = TRUE
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
