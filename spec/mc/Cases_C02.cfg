\* MODULE: Cases
\* BEHAVIOURS: C02
CONSTANTS
  Prop = "C02"
  Deep = FALSE
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
