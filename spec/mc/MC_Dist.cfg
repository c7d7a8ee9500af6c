\* MODULE: MC_Dist
\* PROPERTIES: C13
CONSTANT Wide = FALSE
INIT MInit
NEXT MNext
INVARIANTS NonNeg Self Zero Apart Symmetric Triangle Grey HuePart Pythagoras Bounds
CHECK_DEADLOCK FALSE
