\* MODULE: Cases
\* THOROUGH
\* BEHAVIOURS: C20
CONSTANTS
  Prop = "C20"
  Deep = TRUE
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
