\* MODULE: MC_Calc
\* PROPERTIES: C11 C14 C15
CONSTANTS
  DefNames = {"sRGB"}
  Wide = FALSE
INIT MInit
NEXT MNext
INVARIANTS Closed AlphaKept MixIsAdd MixSelf MixEnds Commutes MinusNothing MinusSelf AvgSelf AvgSym AdjClosed AdjZero NoColor Dark KeepsHue TurnBack TurnFull Closing MonoDown
CHECK_DEADLOCK FALSE
