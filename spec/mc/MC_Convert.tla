----------------------------- MODULE MC_Convert ------------------------------
(* Laws of the conversions, for every RGB color of a grid under several
   definitions: everything stays in range, there and back is the identity
   wherever the type can represent the color, ways through a third type agree
   with direct ones, symmetries of the hue types, white and greys.            *)
EXTENDS Conform, Defs
CONSTANTS Grid, DefNames
VARIABLES c, dn
mv == <<c, dn, sl, df, wp, gm, pt, mt>>
Values == IF Grid = "small" THEN {0, 200000, 333333, 500000, 750000, U}
          ELSE {0, 1000, 40000, 100000, 200000, 333333, 500000, 666667, 750000, 900000, 999000, U}
DD == [n \in DefNames |-> PresetDef(n)]
MInit == /\ dn \in DefNames /\ c \in {<<r, g, b>> : r \in Values, g \in Values, b \in Values}
         /\ sl = <<>> /\ df = <<>> /\ wp = <<>> /\ gm = <<>> /\ pt = <<>> /\ mt = <<>>
MNext == UNCHANGED mv
Def == DD[dn]
Of(t) == FromDeep(t, c, Def)
\* numeric everywhere and inside the documented ranges
Ranges == \A t \in Types : LET v == Of(t) IN Len(v) = NC(t) /\ \A i \in 1..NC(t) : IsNum(v[i]) /\ v[i] >= Lo(t, i) * U /\ v[i] <= Hi(t, i) * U
\* hues 359..360 are stored as 359, components beyond a range at its border
Cut(t, v) == \E i \in 1..NC(t) : \/ i = Hue(t) /\ v[i] >= 359 * U - 1000
                                 \/ t \in XyzTypes /\ i # Hue(t) /\ i > 1 /\ (v[i] = ObjLo(t) * U \/ v[i] = ObjHi(t) * U) /\ v[i] # 0
Near(x, y, tol) == \A i \in 1..Len(x) : ~IsNum(x[i]) \/ ~IsNum(y[i]) \/ Abs(x[i] - y[i]) <= tol
\* the XYZ family is only as precise as a dark color's decoded light
BackTol(t) == IF t \in XyzTypes THEN (IF Grid = "large" THEN 8000 ELSE 3000) ELSE IF t = "HCY" THEN 10 ELSE 60
BackTypes == {"CMYK", "HSI", "HSV", "HSL"} \cup XyzTypes
ThereAndBack == \A t \in BackTypes : LET v == Of(t) IN Cut(t, v) \/ Near(ToDeep(t, v, Def), c, BackTol(t))
\* the library's hue/chroma/luma inverse (pinned by its tests) restores hue and chroma where it stays in range
\* through a third type
Via(A, B) == LET v == Of(A) d == Conv("RGB_DEEP", c, B, Def) x == Conv(A, v, B, Def)
             IN  \/ Cut(A, v) \/ Cut(B, d)
                 \/ \A i \in 1..NC(B) : x[i] = Free \/ CloseC(B, i, x[i], d[i], 3 * Min(500 * U, Tol(B, d, Def)[i]) + (IF B \in TrueTypes THEN (IF A \in XyzTypes THEN 1100000 ELSE 1010000) ELSE IF A \in XyzTypes THEN (IF B = "CMYK" THEN Spread(3000, Max(100000, Max3(c[1], c[2], c[3]))) ELSE 4000) ELSE 0))
                 \/ (A \in XyzTypes /\ Chroma(c) = 0) \/ Max3(c[1], c[2], c[3]) < 25000
                 \/ (A \in XyzTypes /\ B \in CylTypes)     \* hue and saturation amplify
                 \/ (A \in XyzTypes /\ Of("LAB")[1] < U)               \* the darkest colors: fixed point
Indirect == \A A \in BackTypes : \A B \in Types \ {A, "HCY"} : Via(A, B)
\* turning the channels turns the hue by 120 degrees
Turned == <<c[3], c[1], c[2]>>
Rotation == \A t \in {"HSI", "HSV", "HSL"} :
  LET v == Of(t) r == FromDeep(t, Turned, Def)
  IN  Chroma(c) = 0 \/ (Near(<<v[2], v[3]>>, <<r[2], r[3]>>, 2) /\ (Cut(t, v) \/ Cut(t, r) \/ CircDiff(r[1], v[1] + 120 * U) <= 4))
\* all hue types agree on the hue; it is 0 for greys
OneHue == LET h == Of("HSV")[1] IN (\A t \in CylTypes : Of(t)[1] = h) /\ (Chroma(c) = 0 => h = 0)
Greys == (c[1] = c[2] /\ c[2] = c[3]) =>
  /\ Of("HSV") = <<0, 0, c[1]>> /\ Of("HSI") = <<0, 0, c[1]>> /\ Of("HSL") = <<0, 0, c[1]>> /\ Of("HCY") = <<0, 0, c[1]>>
  /\ Of("GREY_DEEP") = <<c[1]>> /\ Of("RGB_TRUE") = [i \in 1..3 |-> Byte(c[1])]
  /\ Of("CMYK")[4] = U - c[1]
  /\ LET l == Of("LAB") IN Abs(l[2]) <= 60000 /\ Abs(l[3]) <= 60000       \* white points are published with four digits
  /\ LET x == Of("XYZ") IN \A i \in 1..3 : Abs(Sub(x[i], Mul(x[2], Def.wt[i]))) <= 6
\* ink: one of cyan, magenta, yellow is always 0
Ink == LET v == Of("CMYK") IN v[4] = U \/ Min3(v[1], v[2], v[3]) = 0
Whites3 == c = <<U, U, U>> =>
  /\ \A i \in 1..3 : Abs(Of("XYZ")[i] - Def.wt[i]) <= 6
  /\ Abs(Of("LAB")[1] - 100 * U) <= 100 /\ Abs(Of("CIELUV")[1] - 100 * U) <= 100
Blacks == c = <<0, 0, 0>> => \A t \in Types \ {"CMYK", "XYY"} : \A i \in 1..NC(t) : Abs(Of(t)[i]) <= 60
\* lightness grows with every channel
Brighter == [c EXCEPT ![1] = Min(U, @ + 100000), ![2] = Min(U, @ + 100000), ![3] = Min(U, @ + 100000)]
Growth == \A q \in {<<"HSV", 3>>, <<"HSI", 3>>, <<"HSL", 3>>, <<"HCY", 3>>, <<"XYZ", 2>>, <<"LAB", 1>>, <<"CIELUV", 1>>, <<"GREY_DEEP", 1>>} :
  FromDeep(q[1], Brighter, Def)[q[2]] >= Of(q[1])[q[2]] - 2
\* polar types have the length and lightness of their rectangular form
Polar == /\ LET a == Of("LAB") p == Of("LCH_AB") IN Cut("LCH_AB", p) \/ (p[1] = a[1] /\ Abs(p[2] - Norm(<<a[2], a[3]>>)) <= 2 /\ Near(FromPolar(p), a, 120))
         /\ LET a == Of("CIELUV") p == Of("LCH_UV") IN Cut("LCH_UV", p) \/ (p[1] = a[1] /\ Abs(p[2] - Norm(<<a[2], a[3]>>)) <= 2 /\ Near(FromPolar(p), a, 120))
\* deep RGB from an 8 bit color and back is exact
Bytes == LET b == Of("RGB_TRUE") d == ToDeep("RGB_TRUE", b, Def) IN FromDeep("RGB_TRUE", d, Def) = b /\ Near(d, c, 1970)
\* conversion to the own type is the identity, alpha survives
Identity == \A t \in Types : LET v == Of(t) IN Conv(t, v, t, Def) = v
AlphaKept == \A t, T \in Types : ConvA(t, c[1], T) \in 0..U /\ Abs(ConvA(t, c[1], T) - c[1]) <= 1962
=============================================================================
