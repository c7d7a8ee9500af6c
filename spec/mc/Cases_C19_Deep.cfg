\* MODULE: Cases
\* THOROUGH
\* BEHAVIOURS: C19
CONSTANTS
  Prop = "C19"
  Deep = TRUE
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
