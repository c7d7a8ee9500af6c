------------------------------- MODULE Spaces -------------------------------
(* Conversions between the 15 color types.

   A color value is the sequence of its components.  D is the color-space
   definition: m and im (9 entries, row by row), wt and xy (tristimulus and
   chromaticity of white) and
   the gamma parts f (encoding) and i (decoding); e is a disturbance of
   linear light, <<0, 0, 0>> but in conformance checks.                           *)
EXTENDS Colors, Gamma

H60(x) == Mul(60 * U, x)
MaxMin(c) == [mx |-> Max3(c[1], c[2], c[3]), mn |-> Min3(c[1], c[2], c[3])]
Chroma(c) == Max3(c[1], c[2], c[3]) - Min3(c[1], c[2], c[3])

\* hue angle of an RGB color, 0 for greys
HueOf(c) == LET mx == Max3(c[1], c[2], c[3])
                d  == mx - Min3(c[1], c[2], c[3])
            IN  CASE d = 0       -> 0
                  [] mx = c[1]   -> MulDiv(60 * U, c[2] - c[3], d)
                  [] mx = c[2]   -> MulDiv(60 * U, c[3] - c[1], d) + 120 * U
                  [] OTHER       -> MulDiv(60 * U, c[1] - c[2], d) + 240 * U

-----------------------------------------------------------------------------
(* Between deep RGB and the types that describe an RGB color                 *)
Luma(c) == Dot(<<212600, 715200, 72200>>, c)
Avg3(c) == MulDiv(c[1] + c[2] + c[3], 1, 3)

DeepToCmyk(c) == LET k == U - Max3(c[1], c[2], c[3])
                 IN  IF k = U THEN <<0, 0, 0, U>>
                     ELSE <<Div(U - c[1] - k, U - k), Div(U - c[2] - k, U - k), Div(U - c[3] - k, U - k), k>>
CmykToDeep(c) == <<Mul(U - c[1], U - c[4]), Mul(U - c[2], U - c[4]), Mul(U - c[3], U - c[4])>>

DeepToHsi(c) == LET i == Avg3(c) mn == Min3(c[1], c[2], c[3])
                IN  IF Chroma(c) = 0 THEN <<0, 0, mn>> ELSE <<HueOf(c), U - Div(mn, i), i>>
DeepToHsv(c) == LET mx == Max3(c[1], c[2], c[3])
                IN  IF Chroma(c) = 0 THEN <<0, 0, mx>> ELSE <<HueOf(c), Div(Chroma(c), mx), mx>>
DeepToHsl(c) == LET s == Max3(c[1], c[2], c[3]) + Min3(c[1], c[2], c[3])
                    d == Chroma(c)
                IN  IF d = 0 THEN <<0, 0, MulDiv(s, 1, 2)>>
                    ELSE <<HueOf(c), Div(d, U - Abs(s - U)), MulDiv(s, 1, 2)>>
DeepToHcy(c) == IF Chroma(c) = 0 THEN <<0, 0, Luma(c)>> ELSE <<HueOf(c), Chroma(c), Luma(c)>>

\* the color of hue h with strongest component a, second b, weakest m
Sector(h, a, b, m) == LET k == h \div (60 * U)
                      IN  CASE k = 0 -> <<a, b, m>> [] k = 1 -> <<b, a, m>> [] k = 2 -> <<m, a, b>>
                            [] k = 3 -> <<m, b, a>> [] k = 4 -> <<b, m, a>> [] OTHER -> <<a, m, b>>
\* position inside of a pair of sectors: 0 at the primaries, 1 at the secondaries
Tri(h) == U - Abs((MulDiv(h, 1, 60) % (2 * U)) - U)

HsiToDeep(c) == IF c[3] = 0 THEN <<0, 0, 0>> ELSE IF Free \in {c[1], c[2]} THEN <<Free, Free, Free>> ELSE
                LET z == Tri(c[1])
                    ch == MulDiv(3 * c[3], c[2], U + z)
                    m == Mul(c[3], U - c[2])
                IN  Sector(c[1], Add(ch, m), Add(Mul(ch, z), m), m)
HsvToDeep(c) == IF c[3] = 0 THEN <<0, 0, 0>> ELSE IF c[2] = 0 THEN <<c[3], c[3], c[3]>>
                ELSE IF Free \in {c[1], c[2]} THEN <<Free, Free, Free>> ELSE
                LET ch == Mul(c[3], c[2])
                    m == c[3] - ch
                IN  Sector(c[1], ch + m, Mul(ch, Tri(c[1])) + m, m)
HslToDeep(c) == IF c[3] = 0 \/ c[3] = U \/ c[2] = 0 THEN <<c[3], c[3], c[3]>>
                ELSE IF Free \in {c[1], c[2]} THEN <<Free, Free, Free>> ELSE
                LET ch == Mul(U - Abs(2 * c[3] - U), c[2])
                    m == c[3] - MulDiv(ch, 1, 2)
                IN  Sector(c[1], ch + m, Mul(ch, Tri(c[1])) + m, m)
PureHue(h) == LET u == MulDiv(h, 1, 60)   \* 0..6
              IN  <<Clamp(Abs(u - 3 * U) - U, 0, U), Clamp(2 * U - Abs(u - 2 * U), 0, U), Clamp(2 * U - Abs(u - 4 * U), 0, U)>>
HcyToDeep(c) == IF c[2] = Free THEN <<Free, Free, Free>> ELSE IF c[1] = Free THEN (IF c[2] = 0 THEN <<c[3], c[3], c[3]>> ELSE <<Free, Free, Free>>) ELSE
                LET p == PureHue(c[1]) y == Luma(p)
                IN  <<Mul(p[1] - y, c[2]) + c[3], Mul(p[2] - y, c[2]) + c[3], Mul(p[3] - y, c[2]) + c[3]>>

HsvToHsl(c) == LET l == Mul(2 * U - c[2], c[3])
               IN  IF c[3] = 0 THEN <<c[1], Free, 0>> ELSE IF c[2] = Free THEN <<c[1], Free, Free>>
                   ELSE IF l = 0 \/ l = 2 * U THEN <<c[1], Free, l \div 2>>
                   ELSE <<c[1], Div(Mul(c[2], c[3]), IF l <= U THEN l ELSE 2 * U - l), MulDiv(l, 1, 2)>>
HslToHsv(c) == LET l == 2 * c[3]
                   m == Mul(c[2], IF l <= U THEN l ELSE 2 * U - l)
               IN  IF c[3] = 0 THEN <<c[1], Free, 0>> ELSE IF c[3] = U THEN <<c[1], 0, U>> ELSE IF c[2] = Free THEN <<c[1], Free, Free>>
                   ELSE IF l + m = 0 THEN <<c[1], Free, 0>>
                   ELSE <<c[1], Div(2 * m, l + m), MulDiv(l + m, 1, 2)>>

-----------------------------------------------------------------------------
(* CIE                                                                       *)
Vec3(m, c) == <<Dot(<<m[1], m[2], m[3]>>, c), Dot(<<m[4], m[5], m[6]>>, c), Dot(<<m[7], m[8], m[9]>>, c)>>
Unit(x) == Clamp(x, 0, U)
DeepToXyz(c, D) == Vec3(D.m, <<Unit(Curve(D.i, c[1])), Unit(Curve(D.i, c[2])), Unit(Curve(D.i, c[3]))>>)
XyzToDeep(c, D) == IF Free \in {c[1], c[2], c[3]} THEN <<Free, Free, Free>> ELSE LET r == Vec3(D.im, c)
                       enc(i) == LET y == Curve(D.f, Unit(r[i] + D.e[i])) IN IF D.e[i] = 0 \/ ~IsNum(y) THEN y ELSE IF D.e[i] > 0 THEN y + 1 ELSE y - 1
                   IN  <<enc(1), enc(2), enc(3)>>

XyzToXyy(c, D) == LET s == c[1] + c[2] + c[3]
                  IN  IF s = 0 THEN <<D.xy[1], D.xy[2], 0>> ELSE <<Div(c[1], s), Div(c[2], s), c[2]>>
XyyToXyz(c) == IF c[2] = 0 THEN <<0, 0, 0>>
               ELSE <<MulDiv(c[1], c[3], c[2]), c[3], MulDiv(U - c[1] - c[2], c[3], c[2])>>

\* u' and v' of a tristimulus
UV(c) == LET s == Add(Add(c[1], Mul(15 * U, c[2])), Mul(3 * U, c[3]))
         IN  IF s = 0 THEN <<0, 0>> ELSE <<MulDiv(4 * U, c[1], s), MulDiv(9 * U, c[2], s)>>
XyzToLuv(c, D) == LET yr == Div(c[2], D.wt[2])
                      l  == IF yr > 8856 THEN Sub(Mul(116 * U, Cbrt(yr)), 16 * U) ELSE Mul(903300000, yr)
                      p  == UV(c) w == UV(D.wt)
                  IN  IF c[1] = 0 /\ c[2] = 0 /\ c[3] = 0 THEN <<0, 0, 0>>
                      ELSE <<l, Mul(l, Mul(13 * U, p[1] - w[1])), Mul(l, Mul(13 * U, p[2] - w[2]))>>
Cube(x) == Mul(x, Mul(x, x))
LuvToXyz(c, D) ==
  LET dark == c[1] <= 7999625
      y == IF dark THEN c[1] ELSE Cube(MulDiv(c[1] + 16 * U, 1, 116))      \* dark: Y is y / 903.3
      n == IF dark THEN 10 ELSE 1
      m == IF dark THEN 9033 ELSE 1
      S == Add(Add(D.wt[1], 15 * D.wt[2]), 3 * D.wt[3])
      \* with u' = (S u + 52 L Xw) / (13 L S) and v' = (S v + 117 L Yw) / (13 L S):
      \* X = Y 9 u' / 4 v' and Z = Y (12 - 3 u' - 20 v') / 4 v'
      den == <<<<4 * m, S, c[3]>>, <<468 * m, c[1], D.wt[2]>>>>
      X == Frac(<<<<9 * n, y, S, c[2]>>, <<468 * n, y, c[1], D.wt[1]>>>>, den)
      Z == Frac(<<<<156 * n, y, c[1], S>>, <<-3 * n, y, S, c[2]>>, <<-156 * n, y, c[1], D.wt[1]>>,
                  <<-20 * n, y, S, c[3]>>, <<-2340 * n, y, c[1], D.wt[2]>>>>, den)
  IN  IF c[1] = 0 THEN <<0, 0, 0>> ELSE IF c[1] < 1000 THEN <<Free, MulDiv(y, n, m), Free>> ELSE <<X, MulDiv(y, n, m), Z>>

LabF(t) == IF t > 8856 THEN Cbrt(t) ELSE MulDiv(Add(Mul(903296296, t), 16 * U), 1, 116)
LabG(f) == LET q == Cube(f) IN IF q > 8856 THEN q ELSE Div(Sub(Mul(116 * U, f), 16 * U), 903296296)
XyzToLab(c, D) == LET x == LabF(Div(c[1], D.wt[1])) y == LabF(Div(c[2], D.wt[2])) z == LabF(Div(c[3], D.wt[3]))
                  IN  <<Sub(Mul(116 * U, y), 16 * U), Mul(500 * U, Sub(x, y)), Mul(200 * U, Sub(y, z))>>
LabToXyz(c, D) == LET fy == MulDiv(c[1] + 16 * U, 1, 116)
                      y == IF c[1] > 8 * U THEN Cube(fy) ELSE Div(c[1], 903296296)
                  IN  <<Mul(LabG(fy + MulDiv(c[2], 1, 500)), D.wt[1]), Mul(y, D.wt[2]),
                        Mul(LabG(fy - MulDiv(c[3], 1, 200)), D.wt[3])>>

\* both LCH types are the polar form of their rectangular type
ToPolar(c) == <<c[1], Norm(<<c[2], c[3]>>), IF c[2] = 0 /\ c[3] = 0 THEN 0 ELSE Angle(c[3], c[2])>>
FromPolar(c) == <<c[1], Mul(c[2], Cos(c[3])), Mul(c[2], Sin(c[3]))>>

-----------------------------------------------------------------------------
\* deep RGB components of a color of type t (in range)
RECURSIVE ToXyz(_, _, _)
ToXyz(t, c, D) ==    \* t \in XyzTypes; tristimulus in range
  CASE t = "XYZ"    -> c
    [] t = "XYY"    -> Mk("XYZ", XyyToXyz(c))
    [] t = "CIELUV" -> Mk("XYZ", LuvToXyz(c, D))
    [] t = "LAB"    -> Mk("XYZ", LabToXyz(c, D))
    [] t = "LCH_AB" -> ToXyz("LAB", Mk("LAB", FromPolar(c)), D)
    [] OTHER        -> ToXyz("CIELUV", Mk("CIELUV", FromPolar(c)), D)
ToDeep(t, c, D) ==
  Mk("RGB_DEEP",
     CASE t = "RGB_DEEP"  -> c
       [] t = "RGB_TRUE"  -> <<MulDiv(c[1], 1, 255), MulDiv(c[2], 1, 255), MulDiv(c[3], 1, 255)>>
       [] t = "GREY_TRUE" -> LET g == MulDiv(c[1], 1, 255) IN <<g, g, g>>
       [] t = "GREY_DEEP" -> <<c[1], c[1], c[1]>>
       [] t = "CMYK" -> CmykToDeep(c)
       [] t = "HSI" -> HsiToDeep(c)
       [] t = "HSV" -> HsvToDeep(c)
       [] t = "HSL" -> HslToDeep(c)
       [] t = "HCY" -> HcyToDeep(c)
       [] OTHER -> XyzToDeep(ToXyz(t, c, D), D))
Byte(x) == Round(255 * x)
FromXyz(t, c, D) ==
  CASE t = "XYZ"    -> c
    [] Free \in {c[1], c[2], c[3]} -> <<Free, Free, Free>>
    [] t = "XYY"    -> Mk(t, XyzToXyy(c, D))
    [] t = "CIELUV" -> Mk(t, XyzToLuv(c, D))
    [] t = "LAB"    -> Mk(t, XyzToLab(c, D))
    [] t = "LCH_AB" -> Mk(t, ToPolar(Mk("LAB", XyzToLab(c, D))))
    [] OTHER        -> Mk(t, ToPolar(Mk("CIELUV", XyzToLuv(c, D))))
FromDeep(t, c, D) ==
  IF Free \in {c[1], c[2], c[3]} THEN [i \in 1..NC(t) |-> Free] ELSE IF NaN \in {c[1], c[2], c[3]} THEN [i \in 1..NC(t) |-> NaN] ELSE
  CASE t = "RGB_DEEP"  -> c
    [] t = "RGB_TRUE"  -> <<Byte(c[1]), Byte(c[2]), Byte(c[3])>>
    [] t = "GREY_TRUE" -> <<Avg3(<<Byte(c[1]), Byte(c[2]), Byte(c[3])>>)>>
    [] t = "GREY_DEEP" -> <<Avg3(c)>>
    [] t = "CMYK" -> Mk(t, DeepToCmyk(c))
    [] t = "HSI" -> Mk(t, DeepToHsi(c))
    [] t = "HSV" -> Mk(t, DeepToHsv(c))
    [] t = "HSL" -> Mk(t, DeepToHsl(c))
    [] t = "HCY" -> Mk(t, DeepToHcy(c))
    [] OTHER -> FromXyz(t, Mk("XYZ", DeepToXyz(c, D)), D)

\* components of the color (t, c) converted to type T
Conv(t, c, T, D) ==
  CASE t = T -> c
    [] t \in XyzTypes /\ \E i \in 1..3 : ~IsNum(c[i]) -> [i \in 1..NC(T) |-> IF Free \in {c[1], c[2], c[3]} THEN Free ELSE NaN]
    [] t = "RGB_TRUE" /\ T = "GREY_TRUE" -> <<Avg3(c)>>
    [] t = "GREY_TRUE" /\ T = "RGB_TRUE" -> <<c[1], c[1], c[1]>>
    [] t = "GREY_TRUE" /\ T = "GREY_DEEP" -> <<MulDiv(c[1], 1, 255)>>
    [] t = "GREY_DEEP" /\ T \in TrueTypes -> IF T = "RGB_TRUE" THEN <<Byte(c[1]), Byte(c[1]), Byte(c[1])>> ELSE <<Byte(c[1])>>
    [] t = "HSV" /\ T = "HSL" -> Mk("HSL", HsvToHsl(c))
    [] t = "HSL" /\ T = "HSV" -> Mk("HSV", HslToHsv(c))
    [] t = "LAB" /\ T = "LCH_AB" -> Mk(T, ToPolar(c))
    [] t = "LCH_AB" /\ T = "LAB" -> Mk(T, FromPolar(c))
    [] t = "CIELUV" /\ T = "LCH_UV" -> Mk(T, ToPolar(c))
    [] t = "LCH_UV" /\ T = "CIELUV" -> Mk(T, FromPolar(c))
    [] t \in XyzTypes /\ T \in XyzTypes -> FromXyz(T, ToXyz(t, c, D), D)
    [] OTHER -> LET d == ToDeep(t, c, D) r == FromDeep(T, d, D)
                IN  \* the hue of a grey that comes from XYZ is that of its rounding errors; so is the saturation of the darkest colors
                    IF t \in XyzTypes /\ T \in CylTypes /\ Free \notin {d[1], d[2], d[3]} /\ (Chroma(d) < 100 \/ Max3(d[1], d[2], d[3]) < 25000)
                    THEN IF Max3(d[1], d[2], d[3]) < 25000 THEN [r EXCEPT ![1] = Free, ![2] = Free] ELSE [r EXCEPT ![1] = Free]
                    ELSE IF t \in XyzTypes /\ T = "CMYK" /\ Max3(d[1], d[2], d[3]) < 25000 THEN <<Free, Free, Free, r[4]>> ELSE r
\* alpha of the converted color: true color types hold whole 8 bit steps
ConvA(t, a, T) == IF T \in TrueTypes /\ t \notin TrueTypes THEN MulDiv(Byte(a), 1, 255) ELSE a

-----------------------------------------------------------------------------
(* How precisely single precision arithmetic determines each component of a
   color: the effect of an error of a few 10^-6 of its RGB or XYZ value.     *)
Spread(x, den) == IF den <= 0 THEN Huge ELSE Div(x, den)
Tol(t, c, D) ==
  LET d == IF Free \in {c[i] : i \in 1..NC(t)} THEN <<0, 0, 0>> ELSE ToDeep(t, c, D) IN
  CASE t \in TrueTypes -> <<300, 300, 300>>
    [] t = "CMYK" -> LET s == 30 + Spread(8, U - c[4]) IN <<s, s, s, 30>>
    [] t = "HSI" -> <<2000 + Spread(300, Chroma(d)), 30 + Spread(8, c[3]), 30>>
    [] t = "HSV" -> <<2000 + Spread(300, Chroma(d)), 30 + Spread(8, c[3]), 30>>
    [] t = "HSL" -> <<2000 + Spread(300, Chroma(d)), 30 + Spread(16, Min(2 * c[3], 2 * U - 2 * c[3])), 30>>
    [] t = "HCY" -> <<2000 + Spread(300, Chroma(d)), 30, 30>>
    [] t = "XYZ" -> <<30 + c[1] \div 30000, 30 + c[2] \div 30000, 30 + c[3] \div 30000>>
    [] t = "XYY" -> LET s == 30 + Spread(10, c[3]) IN <<s, s, 30 + c[3] \div 30000>>
    [] t \in {"CIELUV", "LAB"} -> IF c[1] < 2 * U THEN <<5000, 30000, 30000>> ELSE <<5000, 10000, 10000>>
    [] t \in LchTypes ->   \* the hue of a grey is that of its rounding errors
         LET w == IF c[1] < 2 * U THEN 30000 ELSE 10000
         IN  <<5000, w, IF c[2] <= w THEN Huge ELSE 10000 + Spread(60 * w, c[2])>>
    [] OTHER -> <<30, 30, 30>>
=============================================================================
