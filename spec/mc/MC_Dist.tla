------------------------------- MODULE MC_Dist -------------------------------
(* Distances as metrics, on all pairs and triples of a set of colors.          *)
EXTENDS Conform, Defs
CONSTANTS Wide
VARIABLES p, q, t, dd
mv == <<p, q, t, dd, sl, df, wp, gm, pt, mt>>
Vals == IF Wide THEN {0, 50000, 300000, 700000, U} ELSE {0, 300000, U}
Cols == {<<x, y, z>> : x \in Vals, y \in Vals, z \in Vals}
Qs == IF Wide THEN Cols ELSE {<<0, 0, 0>>, <<U, U, U>>, <<U, 0, 0>>, <<300000, 300000, 300000>>, <<0, 300000, U>>, <<300000, U, 0>>}
MInit == /\ p \in Cols /\ q \in Qs /\ t \in (IF Wide THEN {"RGB_DEEP", "LAB", "XYZ"} ELSE {"RGB_DEEP", "LAB"})
         /\ dd = <<>>
         /\ sl = <<>> /\ df = <<>> /\ wp = <<>> /\ gm = <<>> /\ pt = <<>> /\ mt = <<>>
Def == TLCEval(PresetDef("sRGB"))
X == Color(t, FromDeep(t, p, Def), U)
Y == Color("RGB_DEEP", q, U \div 2)
Third == {Color("RGB_DEEP", c, U) : c \in {<<0, 0, 0>>, <<U, 0, 0>>, <<400000, 500000, 200000>>}}
K == <<U, 45000, 15000, U, U>>
ds(x, y) == [euclid |-> EuclidIn("RGB_DEEP", x, y, Def, Def), luv |-> EuclidIn("CIELUV", x, y, Def, Def), weighted |-> Weighted(x, y, Def, Def),
             cie76 |-> Cie76(x, y, Def, Def), cie94 |-> Cie94(K, x, y, Def, Def), cmc |-> Cmc(2 * U, U, x, y, Def, Def), pub |-> Cie00Published(K, x, y, Def, Def)]
three(x, y) == <<EuclidIn("RGB_DEEP", x, y, Def, Def), EuclidIn("CIELUV", x, y, Def, Def), Cie76(x, y, Def, Def)>>
All == {"euclid", "luv", "weighted", "cie76", "cie94", "cmc", "pub"}
Done == dd # <<>>
MNext == dd = <<>> /\ dd' = ds(X, Y) /\ UNCHANGED <<p, q, t, sl, df, wp, gm, pt, mt>>
NonNeg == Done => LET d == dd IN \A f \in All : IsNum(d[f]) /\ d[f] >= 0
Self == Done => LET d == ds(X, X) IN \A f \in All : d[f] = 0
Zero == Done => LET e == Conv(t, X.c, "RGB_DEEP", Def) d == dd IN (\A i \in 1..3 : e[i] = q[i]) => \A f \in All : d[f] <= 3000
Apart == Done => LET e == Conv(t, X.c, "RGB_DEEP", Def) d == dd IN (\E i \in 1..3 : Abs(e[i] - q[i]) > 100000) => \A f \in All : d[f] > 1000
Symmetric == Done => LET d == dd e == ds(Y, X) IN \A f \in {"euclid", "luv", "weighted", "cie76", "pub"} : Abs(d[f] - e[f]) <= 5 + d[f] \div 10000
Triangle == Done => \A z \in Third : LET m == TLCEval(three(X, z)) n == TLCEval(three(z, Y)) IN \A f \in 1..3 : Sub(dd[(<<"euclid", "luv", "cie76">>)[f]], Add(m[f], n[f])) <= 10
\* published CIEDE2000 and the library's form agree where the hue plays no part
Grey == (Done /\ p[1] = p[2] /\ p[2] = p[3] /\ q[1] = q[2] /\ q[2] = q[3] /\ t = "RGB_DEEP") =>
  LET d == dd IN Abs(d["cie76"] - Abs(LabOf(X, Def)[1] - LabOf(Y, Def)[1])) <= 100000 /\ Abs(d["cie94"] - d["cie76"]) <= 100000
\* the hue part never exceeds the difference in the plane
HuePart == Done => LET a == LabOf(X, Def) b == LabOf(Y, Def) IN DeltaH(a, b) <= Norm(<<Sub(a[2], b[2]), Sub(a[3], b[3])>>) + 2000
\* the defining identity: dE^2 = dL^2 + dC^2 + dH^2
Pythagoras == Done => LET a == LabOf(X, Def) b == LabOf(Y, Def) IN
  Abs(Sub(dd["cie76"], Norm(<<Sub(a[1], b[1]), Sub(Norm(<<a[2], a[3]>>), Norm(<<b[2], b[3]>>)), DeltaH(a, b)>>))) <= 3000
\* weighted Euclidean lies between twice and three times the Euclidean one
Bounds == Done => LET d == dd IN d["weighted"] + 10 >= MulDiv(d["euclid"], 1414213, U) /\ d["weighted"] <= 2 * d["euclid"] + 10
=============================================================================
