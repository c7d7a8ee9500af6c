\* MODULE: MC_Hex
\* PROPERTIES: C03
CONSTANTS
  Alphabet = {35, 48, 70, 103}
  MaxLen = 9
INIT MInit
NEXT MNext
INVARIANTS Accepted Bytes Ranges SameInt Error
CHECK_DEADLOCK FALSE
