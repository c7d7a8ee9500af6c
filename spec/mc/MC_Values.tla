------------------------------ MODULE MC_Values ------------------------------
(* Laws of storing components and alpha, for every type, component and a grid
   of arguments around every border.                                         *)
EXTENDS Colors, FiniteSets
VARIABLES t, i, x
vars == <<t, i, x>>
Eps == {-U, -1000, -1, 0, 1, 1000, U}
Borders == {0, U, -U, 100 * U, -100 * U, 128 * U, -128 * U, 255 * U, 359 * U, 360 * U, -360 * U, 720 * U, U \div 2, 180 * U}
Args == {b + d : b \in Borders, d \in Eps} \cup {Huge, -Huge, NaN} \cup {k * 37 * U + 123457 : k \in -54..53}
Init == t \in Types /\ i \in 1..NC(t) /\ x \in Args
Next == UNCHANGED vars
S == Store(t, i, x)
l == Lo(t, i) * U
h == Hi(t, i) * U
cyl == i = 1 /\ t \in CylTypes
Inside == S >= l /\ S <= h
Idempotent == Store(t, i, S) = S
Exact == (IsNum(x) /\ x >= l /\ x <= h) => S = x
\* hues wrap, everything else is monotone in the argument
Wraps == (cyl /\ Abs(x) <= 1000 * U) => \A k \in -2..2 : Store(t, i, x + k * 360 * U) = S
Monotone == ~cyl => \A d \in {1, 1000, U, 360 * U} : Abs(x) <= 1000 * U => Store(t, i, x + d) >= S
\* the indexed setter never leaves the type's overall range, which contains every component's but the hue's
Overall == (i = Hue(t) \/ (l >= ObjLo(t) * U /\ h <= ObjHi(t) * U)) /\ ObjLo(t) < ObjHi(t)
Alpha == MkA(x) >= 0 /\ MkA(x) <= U /\ (x \in 0..U => MkA(x) = x)
\* bit patterns order like the numbers they stand for
Bits == \A a, b \in {0, 1, 255, 359, 100, -100, 128, -128, 360} : (a < b) <=> (OrdOf(a) < OrdOf(b))
=============================================================================
