\* MODULE: Cases
\* THOROUGH
\* BEHAVIOURS: C02
CONSTANTS
  Prop = "C02"
  Deep = TRUE
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
