\* MODULE: Cases
\* THOROUGH
\* BEHAVIOURS: C03
CONSTANTS
  Prop = "C03"
  Deep = TRUE
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
