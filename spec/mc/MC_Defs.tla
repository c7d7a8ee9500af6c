------------------------------- MODULE MC_Defs -------------------------------
(* Every predefined definition and a grid of custom ones: the matrix computed
   from primaries and white has the properties the conformance check demands
   of the library's matrix, and determines it.                               *)
EXTENDS Conform, Defs
VARIABLES p, w
mv == <<p, w, sl, df, wp, gm, pt, mt>>
XY(s) == {<<a, b>> : a \in s, b \in s}
Reds   == {<<640000, 330000>>, <<735000, 265000>>, <<600000, 350000>>}
Greens == {<<300000, 600000>>, <<115000, 826000>>, <<210000, 710000>>, <<320000, 580000>>}
Blues  == {<<150000, 60000>>, <<36600, 100>>, <<180000, 100000>>}
Grid == {<<r[1], r[2], g[1], g[2], b[1], b[2]>> : r \in Reds, g \in Greens, b \in Blues}
MInit == /\ \/ p \in Grid /\ w \in DOMAIN Whites
            \/ \E n \in DOMAIN SpacesTable \ {"cieXYZ"} : p = SpacesTable[n].p /\ w \in {SpacesTable[n].w} \cup DOMAIN Whites
         /\ sl = <<>> /\ df = <<>> /\ wp = <<>> /\ gm = <<>> /\ pt = <<>> /\ mt = <<>>
MNext == UNCHANGED mv
Wh == Whites[w]
D == DefOf(p, Wh, Preset("sRGB"))
Z(j) == <<p[2 * j - 1], p[2 * j], U - p[2 * j - 1] - p[2 * j]>>
Rec == [m |-> D.m, im |-> D.im, wt |-> D.wt, prim |-> Z(1) \o Z(2) \o Z(3)]
Correct == DefMatOK(Rec)
\* any other matrix is refused: one entry changed by 0.001
Determined == \A i \in 1..9 : ~DefMatOK([Rec EXCEPT !.m[i] = @ + 1000]) /\ ~DefMatOK([Rec EXCEPT !.m[i] = @ - 1000])
\* the gamut contains its white: all columns have positive luminance
Positive == D.m[4] + D.m[5] + D.m[6] \in (U - 5)..(U + 5)
\* white and the primaries survive
WhiteBack == LET x == Vec3(D.im, D.wt) IN \A i \in 1..3 : Abs(x[i] - U) <= 60
=============================================================================
