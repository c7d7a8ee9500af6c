\* MODULE: MC_Dist
\* PROPERTIES: C13
\* THOROUGH
CONSTANT Wide = TRUE
INIT MInit
NEXT MNext
INVARIANTS NonNeg Self Zero Apart Symmetric Triangle Grey HuePart Pythagoras Bounds
CHECK_DEADLOCK FALSE
