\* MODULE: MC_Defs
\* PROPERTIES: C19
INIT MInit
NEXT MNext
INVARIANTS Correct Determined Positive WhiteBack
CHECK_DEADLOCK FALSE
