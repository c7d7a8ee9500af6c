\* MODULE: Cases
\* THOROUGH
\* BEHAVIOURS: C14
CONSTANTS
  Prop = "C14"
  Deep = TRUE
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
