\* MODULE: MC_Adapt
\* PROPERTIES: C16
\* THOROUGH
CONSTANT Some = FALSE
INIT Init
NEXT Next
INVARIANTS WhiteToWhite BlackToBlack ToItself Undone Inverses Degrees InRange3 Scaled
CHECK_DEADLOCK FALSE
