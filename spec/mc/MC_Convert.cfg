\* MODULE: MC_Convert
\* PROPERTIES: C04 C05 C06 C07 C08
CONSTANTS
  Grid = "small"
  DefNames = {"sRGB", "rommRGB"}
INIT MInit
NEXT MNext
INVARIANTS Ranges ThereAndBack Indirect Rotation OneHue Greys Ink Whites3 Blacks Growth Polar Bytes Identity AlphaKept
CHECK_DEADLOCK FALSE
