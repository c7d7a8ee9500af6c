------------------------------ MODULE MC_Adapt -------------------------------
(* White goes to white, black to black, and full adaptation is undone by the
   adaptation back, for every method and pair of predefined white points.      *)
EXTENDS Adapt, Tables
CONSTANTS Some
VARIABLES f, s, d
mv == <<f, s, d>>
Methods == FullCat \cup {"bradford", "cmccat97", "cmccat2000", "cat02"}
Names == IF Some THEN {"D50_2", "D65_2", "A_2", "E_2", "C_10", "F2_2", "F11_10", "D75_2"} ELSE DOMAIN Whites
Init == f \in Methods /\ s \in Names /\ d \in Names
Next == UNCHANGED mv
W(n) == <<Whites[n][1], Whites[n][2], Whites[n][3]>>
P == <<U, 100 * U, 100 * U>>
Near(x, y, tol) == \A i \in 1..3 : Abs(x[i] - y[i]) <= tol
Xs == {<<200000, 300000, 100000>>, <<412400, 212600, 19300>>, <<50000, 40000, 90000>>, <<180500, 72200, 950500>>}
WhiteToWhite == f \in FullCat => Near(Adapted(f, P, W(s), W(s), W(d)), W(d), 60)
BlackToBlack == Adapted(f, P, <<0, 0, 0>>, W(s), W(d)) = <<0, 0, 0>>
ToItself == s = d => \A x \in Xs : Near(Adapted(f, P, x, W(s), W(s)), x, 60)
Undone == f \in FullCat => \A x \in Xs : LET y == Adapted(f, P, x, W(s), W(d)) IN 0 \in {y[1], y[2], y[3]} \/ Near(Adapted(f, P, y, W(d), W(s)), x, 150)
\* the published pairs of matrices are inverse to each other
Inverses == \A i, k \in 1..3 : LET m == CatM(f) v == CatI(f) IN
  Abs(Dot(<<m[3 * i - 2], m[3 * i - 1], m[3 * i]>>, <<v[k], v[k + 3], v[k + 6]>>) - (IF i = k THEN U ELSE 0)) <= 30
Degrees == \A la \in {1000, U, 20 * U, 100 * U, 1000 * U} : \A F \in {0, 800000, U} : LET x == Degree(f, <<F, la, 100 * U>>) IN IsNum(x) /\ x \in 0..U
InRange3 == \A x \in Xs : LET y == Adapted(f, P, x, W(s), W(d)) IN \A i \in 1..3 : y[i] = Free \/ y[i] \in 0..(100 * U)
\* linear methods respect sums
Scaled == f \in FullCat => LET y == Adapted(f, P, <<200000, 300000, 100000>>, W(s), W(d)) z == Adapted(f, P, <<400000, 600000, 200000>>, W(s), W(d))
                           IN  \A i \in 1..3 : y[i] = 0 \/ Abs(z[i] - 2 * y[i]) <= 6
=============================================================================
