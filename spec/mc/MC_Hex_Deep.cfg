\* MODULE: MC_Hex
\* PROPERTIES: C03
\* THOROUGH
CONSTANTS
  Alphabet = {35, 57, 65, 102}
  MaxLen = 10
INIT MInit
NEXT MNext
INVARIANTS Accepted Bytes Ranges SameInt Error
CHECK_DEADLOCK FALSE
