\* MODULE: Cases
\* THOROUGH
\* BEHAVIOURS: C08
CONSTANTS
  Prop = "C08"
  Deep = TRUE
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
