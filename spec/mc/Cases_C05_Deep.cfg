\* MODULE: Cases
\* THOROUGH
\* BEHAVIOURS: C05
CONSTANTS
  Prop = "C05"
  Deep = TRUE
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
