------------------------------- MODULE Colors -------------------------------
(* Color types, their components and documented ranges, and the exact order
   of IEEE single precision numbers (given by their bit pattern).           *)
EXTENDS Num

AllTypes == <<"RGB_TRUE", "RGB_DEEP", "GREY_TRUE", "GREY_DEEP", "CMYK", "HSI", "HSV", "HSL", "HCY",
              "XYZ", "XYY", "CIELUV", "LAB", "LCH_AB", "LCH_UV">>
Types == {AllTypes[i] : i \in 1..15}
TrueTypes == {"RGB_TRUE", "GREY_TRUE"}
CylTypes  == {"HSI", "HSV", "HSL", "HCY"}      \* hue is the first component
LchTypes  == {"LCH_AB", "LCH_UV"}              \* hue is the third component
XyzTypes  == {"XYZ", "XYY", "CIELUV", "LAB", "LCH_AB", "LCH_UV"}   \* depend on the definition

NC(t) == CASE t \in {"GREY_TRUE", "GREY_DEEP"} -> 1 [] t = "CMYK" -> 4 [] OTHER -> 3
\* number of values the alpha accessors count full opacity as
AlphaScale(t) == IF t \in TrueTypes THEN 255 ELSE 1

\* overall range of a type, used by the indexed setter, sums and gamma correction
ObjLo(t) == CASE t = "CIELUV" -> -100 [] t = "LAB" -> -128 [] OTHER -> 0
ObjHi(t) == CASE t \in TrueTypes -> 255
              [] t \in {"XYZ", "XYY", "CIELUV", "LCH_AB", "LCH_UV"} -> 100
              [] t = "LAB" -> 128
              [] OTHER -> 1
\* documented range of every component, used by constructors and named setters
Lo(t, i) == CASE t \in {"CIELUV", "LAB"} /\ i = 1 -> 0 [] OTHER -> ObjLo(t)
Hi(t, i) == CASE t \in CylTypes /\ i = 1 -> 359
              [] t \in LchTypes /\ i = 3 -> 359
              [] t = "LAB" /\ i = 1 -> 100
              [] OTHER -> ObjHi(t)
Hue(t) == IF t \in CylTypes THEN 1 ELSE IF t \in LchTypes THEN 3 ELSE 0

Wrap(h) == LET r == Fmod(h, 360 * U) IN IF IsNum(r) /\ r < 0 THEN r + 360 * U ELSE r

\* the value a constructor or named setter stores for x
Store(t, i, x) == IF x = Free THEN Free
                  ELSE Clamp(IF i = 1 /\ t \in CylTypes THEN Wrap(x) ELSE x, Lo(t, i) * U, Hi(t, i) * U)
Mk(t, c) == CASE NC(t) = 1 -> <<Store(t, 1, c[1])>>
              [] NC(t) = 3 -> <<Store(t, 1, c[1]), Store(t, 2, c[2]), Store(t, 3, c[3])>>
              [] OTHER     -> <<Store(t, 1, c[1]), Store(t, 2, c[2]), Store(t, 3, c[3]), Store(t, 4, c[4])>>
MkA(a) == Clamp(a, 0, U)
InRange(t, c) == \A i \in 1..NC(t) : c[i] = Free \/ (c[i] >= ObjLo(t) * U /\ c[i] <= Hi(t, i) * U) 

-----------------------------------------------------------------------------
(* IEEE single precision.  Ord maps the bit pattern b (as a 32 bit signed
   integer) to an integer that orders like the number, -0 and 0 together.   *)
Ord(b)   == IF b >= 0 THEN b ELSE -((b + 2147483647) + 1)
NaNBits  == 2143289344
InfOrd   == 2139095040
OrdOf(k) == CASE k = 0 -> 0 [] k = 1 -> 1065353216 [] k = 255 -> 1132396544 [] k = 359 -> 1135837184
              [] k = 100 -> 1120403456 [] k = -100 -> -1120403456
              [] k = 128 -> 1124073472 [] k = -128 -> -1124073472 [] k = 360 -> 1135869952
\* exact order of what clamping the number with bits b to lo..hi (orders) stores
ClampOrd(b, lo, hi) == IF b = NaNBits THEN hi ELSE Max(lo, Min(Ord(b), hi))
=============================================================================
