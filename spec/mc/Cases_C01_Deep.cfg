\* MODULE: Cases
\* THOROUGH
\* BEHAVIOURS: C01
CONSTANTS
  Prop = "C01"
  Deep = TRUE
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
