------------------------------ MODULE MC_Curves ------------------------------
(* The published curves: increasing from 0 to 1, and undone by their inverse,
   at every thousandth.                                                      *)
EXTENDS Gamma
CONSTANTS Step
VARIABLES name, x
mv == <<name, x>>
Init == name \in PresetNames /\ x = 0
Next == x < U /\ x' = Min(U, x + Step) /\ UNCHANGED name
Spec == Init /\ [][Next]_mv
P == Preset(name)
E(y) == Curve(P.f, y)
D(y) == Curve(P.i, y)
Unit(y) == y \in -2..(U + 2)
Closed == Unit(E(x)) /\ Unit(D(x))
Ends == (x = 0 => Abs(E(x)) <= 2 /\ Abs(D(x)) <= 2) /\ (x = U => Abs(E(x) - U) <= 2 /\ Abs(D(x) - U) <= 2)
\* published constants have four digits: where the pieces meet the curves may step back by a little
Seam == 120
Rising == [][E(x') + Seam >= E(x) /\ D(x') + Seam >= D(x) /\ (x > 60000 => E(x') > E(x)) /\ (x > 100000 => D(x') > D(x))]_mv
Brightens == E(x) >= x - 2 /\ D(x) <= x + 2
Inverse == Abs(D(E(x)) - x) <= 60 /\ Abs(E(D(x)) - x) <= (IF x < 20000 THEN 20000 ELSE IF x < 100000 THEN 1000 ELSE 260)
=============================================================================
