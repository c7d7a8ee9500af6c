------------------------------- MODULE MC_Calc -------------------------------
(* Laws of sums, mixtures, differences, averages, adjustments and combinations
   for pairs of RGB colors in every type.                                     *)
EXTENDS Conform, Defs
CONSTANTS DefNames, Wide
VARIABLES t, p, q, w, dn
mv == <<t, p, q, w, dn, sl, df, wp, gm, pt, mt>>
DD == [n \in DefNames |-> PresetDef(n)]
Cols == {<<0, 0, 0>>, <<U, U, U>>, <<U, 0, 0>>, <<200000, 600000, 400000>>, <<500000, 500000, 500000>>, <<100000, 200000, 900000>>, <<0, 700000, 700000>>}
        \cup (IF Wide THEN {<<x, y, z>> : x \in {0, 350000, U}, y \in {0, 350000, U}, z \in {150000, 800000}} ELSE {})
MInit == /\ t \in Types /\ p \in Cols /\ q \in Cols /\ w \in {0, 250000, 500000, U} /\ dn \in DefNames
         /\ sl = <<>> /\ df = <<>> /\ wp = <<>> /\ gm = <<>> /\ pt = <<>> /\ mt = <<>>
MNext == UNCHANGED mv
Def == DD[dn]
X == Color(t, FromDeep(t, p, Def), 750000)
Y == Color(t, FromDeep(t, q, Def), 250000)
Cut(v) == \E i \in 1..NC(t) : (i = Hue(t) /\ v.c[i] >= 359 * U - 1000) \/ (t \in {"CIELUV", "LAB", "LCH_AB", "LCH_UV"} /\ i # Hue(t) /\ i > 1 /\ (v.c[i] = ObjLo(t) * U \/ v.c[i] = ObjHi(t) * U))
\* x and y stand for the same color: compared as deep RGB
NearD(x, y, tol) == LET d == Conv(x.t, x.c, "RGB_DEEP", Def) e == Conv(y.t, y.c, "RGB_DEEP", Def) IN \A i \in 1..3 : ~IsNum(d[i]) \/ ~IsNum(e[i]) \/ Abs(Sub(d[i], e[i])) <= tol
Tol1 == IF t \in TrueTypes THEN 4100 ELSE IF t = "HCY" THEN 400000 ELSE IF t \in XyzTypes THEN 4000 ELSE 200
Fine(x) == \A i \in 1..NC(t) : IsNum(x.c[i]) \/ x.c[i] = Free
AlphaOk(x) == x.a >= 0 /\ x.a <= U
Results == {AddOp(w, U - w, TRUE, X, Y, Def), AddOp(U, U, TRUE, X, Y, Def), MixOp(w, TRUE, X, Y, Def), SubOp(w, TRUE, X, Y, Def), AvgOp(TRUE, <<X, Y>>)}
Closed == \A r \in Results : Fine(r) /\ AlphaOk(r) /\ r.t = t /\ InRange(t, r.c)
AlphaKept == \A r \in {AddOp(w, U, FALSE, X, Y, Def), MixOp(w, FALSE, X, Y, Def), SubOp(w, FALSE, X, Y, Def), AvgOp(FALSE, <<X, Y>>)} : r.a = X.a
MixIsAdd == MixOp(w, TRUE, X, Y, Def) = AddOp(w, U - w, TRUE, X, Y, Def)
\* a mixture of a color with itself is that color; weight 1 gives the first, weight 0 the second
MixSelf == t = "HCY" \/ Cut(X) \/ NearD(MixOp(w, FALSE, X, X, Def), X, Tol1)
MixEnds == t = "HCY" \/ Cut(X) \/ Cut(Y) \/ ((w = U => NearD(MixOp(w, FALSE, X, Y, Def), X, Tol1)) /\ (w = 0 => NearD(MixOp(w, FALSE, X, Y, Def), Y, Tol1)))
Commutes == t = "HCY" \/ NearD(AddOp(w, U - w, FALSE, X, Y, Def), AddOp(U - w, w, FALSE, Y, X, Def), Tol1 + 20)
\* subtracting nothing changes nothing
MinusNothing == (t = "HCY" \/ Cut(X)) \/ NearD(SubOp(0, FALSE, X, Y, Def), X, Tol1)
MinusSelf == t \in {"RGB_DEEP", "RGB_TRUE", "GREY_DEEP", "GREY_TRUE", "CMYK", "XYZ"} => \A i \in 1..NC(t) : SubOp(U, FALSE, X, X, Def).c[i] = 0
AvgSelf == AvgOp(TRUE, <<X, X, X>>) = [t |-> t, c |-> X.c, a |-> X.a]
AvgSym == \A i \in 1..NC(t) : AvgOp(FALSE, <<X, Y>>).c[i] = AvgOp(FALSE, <<Y, X>>).c[i]
-----------------------------------------------------------------------------
Rgbish == t \in {"RGB_DEEP", "HSV", "HSL", "HSI", "CMYK", "LAB", "XYZ"}
Pct == w - 400000        \* -0.4, -0.15, 0.1, 0.6
Adjusts == {"sat_rgb", "lum_rgb", "sat_hsl", "lum_hsl"}
AdjClosed == \A f \in Adjusts : LET r == AdjustOp(f, Pct, X, Def) IN Fine(r) /\ r.t = t /\ Abs(r.a - X.a) <= 1961
AdjZero == Cut(X) \/ t \in {"HCY", "GREY_TRUE", "GREY_DEEP"} \/ \A f \in Adjusts : NearD(AdjustOp(f, 0, X, Def), X, Tol1)
\* taking all saturation away leaves greys; all luminosity, black
Grey(r) == LET d == Conv(t, r.c, "RGB_DEEP", Def) IN Free \in {d[1], d[2], d[3]} \/ Chroma(d) <= Tol1
NoColor == t = "HCY" \/ (Grey(AdjustOp("sat_hsl", -U, X, Def)) /\ Grey(AdjustOp("sat_rgb", -U, X, Def)))
Dark == t = "HCY" \/ \A f \in {"lum_rgb", "lum_hsl"} : NearD(AdjustOp(f, -U, X, Def), Color("RGB_DEEP", <<0, 0, 0>>, 0), Tol1)
\* hue and saturation survive a change of lightness
KeepsHue == (t \in {"RGB_DEEP", "HSL"} /\ Chroma(p) > 0 /\ w > 0) =>
   LET h == Hsl(X, Def) r == Hsl([t |-> t, c |-> AdjustOp("lum_hsl", -U \div 2, X, Def).c, a |-> 0, w |-> 0, q |-> 0], Def)
   IN  h[3] = 0 \/ h[3] = U \/ (CircDiff(h[1], r[1]) <= 200 /\ Abs(h[2] - r[2]) <= 200 /\ Abs(r[3] - MulDiv(h[3], 1, 2)) <= 4)
-----------------------------------------------------------------------------
Turned(d) == LET r == Turn(d, X, Def) IN Color(r.t, r.c, r.a)
TurnBack == (~Rgbish \/ Cut(X) \/ Cut(Turned(120 * U))) \/ LET r == Turned(120 * U) IN Hsl(r, Def)[1] = Free \/ NearD(Turn(240 * U, r, Def), X, Tol1 + 3000)
TurnFull == (~Rgbish \/ Cut(X)) \/ NearD(Turn(360 * U, X, Def), X, Tol1 + 20)
\* the combination of n colors closes: color i turned by 360/n is color i + 1
Closing == (t = "RGB_DEEP") => \A n \in {2, 3, 5, 7} : \A i \in 1..(n - 1) :
  LET a == ComboOp("combination", n, i - 1, 0, X, Def) b == ComboOp("combination", n, i, 0, X, Def)
      h == Hsl(Color(a.t, a.c, 0), Def) k == Hsl(Color(b.t, b.c, 0), Def)
  IN  Chroma(p) = 0 \/ h[1] >= 359 * U - 1000 \/ k[1] >= 359 * U - 1000 \/ CircDiff(k[1], h[1] + MulDiv(360 * U, 1, n)) <= 400
MonoDown == \A m \in 0..2 : LET r == Mono(m, 300000, X, Def) h == Hsl(X, Def) k == Hsl(Color(r.t, r.c, 0), Def)
                            IN  t # "RGB_DEEP" \/ h[2] = Free \/ k[2] = Free \/ (k[3] <= h[3] + 2 /\ (k[3] = 0 \/ k[3] = U \/ k[2] <= h[2] + 20))
=============================================================================
