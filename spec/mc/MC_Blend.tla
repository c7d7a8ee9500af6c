------------------------------ MODULE MC_Blend -------------------------------
(* Laws of the blend functions and of compositing, on a grid of component
   values and alphas.                                                        *)
EXTENDS Blend, FiniteSets
CONSTANTS Fine
VARIABLES s, d, a, b
mv == <<s, d, a, b>>
V == IF Fine THEN {k * 50000 : k \in 0..20} \cup {499999, 500001, 1, 999999, 333333} ELSE {0, 1, 100000, 250000, 333333, 499999, 500000, 500001, 750000, 999999, U}
A == {0, 1, 100000, 500000, 800000, U}
Init == s \in V /\ d \in V /\ a \in A /\ b \in A
Next == UNCHANGED mv
f(m) == BlendFn(m, s, d)
g(m) == BlendFn(m, d, s)
Near(x, y) == Abs(x - y) <= 2
Numeric == \A m \in SeparableModes : IsNum(f(m))
\* functions that map the unit square into the unit interval
Closed == \A m \in {"normal", "multiply", "screen", "overlay", "darken", "lighten", "color_dodge", "color_burn", "hard_light", "soft_light", "pin_light", "hard_mix", "difference", "exclusion"} :
            f(m) >= -2 /\ f(m) <= U + 2
Symmetric == \A m \in {"multiply", "screen", "darken", "lighten", "linear_dodge", "linear_burn", "difference", "exclusion", "plus_lighter", "plus_darker", "hard_mix"} : Near(f(m), g(m))
Neutral == (s = U => Near(f("multiply"), d) /\ Near(f("darken"), d) /\ Near(f("difference"), U - d) /\ f("screen") = U)
           /\ (s = 0 => Near(f("screen"), d) /\ Near(f("lighten"), d) /\ f("multiply") = 0 /\ f("difference") = d /\ f("exclusion") = d /\ f("linear_dodge") = d /\ f("subtract") = -d)
           /\ (s = Half => Near(f("hard_light"), d) /\ Near(f("linear_light"), d) /\ Near(f("soft_light"), d) /\ f("pin_light") = d)
Dual == /\ Near(f("screen"), U - BlendFn("multiply", U - s, U - d))
        /\ f("overlay") = g("hard_light")
        /\ f("darken") + f("lighten") = s + d
        /\ f("difference") = f("lighten") - f("darken")
        /\ Near(f("exclusion"), s + d - 2 * f("multiply"))
        /\ f("subtract") = -g("subtract")
        /\ (f("hard_mix") = U) = (f("linear_burn") >= 0)
Order == f("multiply") <= f("darken") + 2 /\ f("darken") <= f("lighten") /\ f("lighten") <= f("screen") + 2 /\ f("screen") <= f("linear_dodge") + 2
Grows == \A m \in {"multiply", "screen", "overlay", "darken", "lighten", "hard_light", "soft_light", "linear_light", "pin_light", "linear_dodge", "linear_burn"} :
           BlendFn(m, s, Min(U, d + 50000)) >= f(m) - 2
-----------------------------------------------------------------------------
S == [c |-> <<s, d, U>>, a |-> a]
T == [c |-> <<d, s, 0>>, a |-> b]
Bl(m) == <<BlendFn(m, s, d), BlendFn(m, d, s), BlendFn(m, U, 0)>>
AreaSum == LET r == Regions(a, b) IN Near(r.s + r.b, a) /\ Near(r.d + r.b, b) /\ Near(r.s + r.d + r.b, a + b - Mul(a, b)) /\ r.s + r.d + r.b <= U + 2
Comp(us, ud, m) == Composite(S, T, us, ud, TRUE, Bl(m))
InRange3 == \A us, ud \in BOOLEAN : \A m \in SeparableModes : LET r == Comp(us, ud, m) IN r.a \in 0..U /\ \A i \in 1..3 : r.c[i] \in 0..U
\* alpha does not depend on the mode, only on the regions
AlphaLaw == \A us, ud \in BOOLEAN : \A m \in SeparableModes :
   LET r == Regions(a, b) IN Comp(us, ud, m).a = MkA(r.b + (IF us THEN r.s ELSE 0) + (IF ud THEN r.d ELSE 0))
\* both opaque: the function itself; one transparent: the other one if its region is selected
Opaque == (a = U /\ b = U) => \A us, ud \in BOOLEAN : \A m \in SeparableModes : \A i \in 1..3 : Near(Comp(us, ud, m).c[i], Clamp(Bl(m)[i], 0, U))
Through == /\ (a = 0 /\ b > 0) => \A m \in SeparableModes : Comp(TRUE, TRUE, m).a = b /\ \A i \in 1..3 : Near(Comp(TRUE, TRUE, m).c[i], T.c[i])
           /\ (b = 0 /\ a > 0) => \A m \in SeparableModes : Comp(TRUE, TRUE, m).a = a /\ \A i \in 1..3 : Near(Comp(TRUE, TRUE, m).c[i], S.c[i])
Nothing == (a = 0 \/ b = 0) => LET r == Comp(FALSE, FALSE, "screen") IN r = [c |-> <<0, 0, 0>>, a |-> 0]
-----------------------------------------------------------------------------
(* The Porter-Duff algebra                                                    *)
P(o) == PdDeep(o, S, T)
\* premultiplied components
Pre(r, i) == Mul(r.c[i], r.a)
SameRes(x, y) == Near(x.a, y.a) /\ \A i \in 1..3 : Abs(Pre(x, i) - Pre(y, i)) <= 4
Q(o) == PdDeep(o, T, S)
Mirror == /\ SameRes(P("over"), Q("dest_over")) /\ SameRes(P("in"), Q("dest_in")) /\ SameRes(P("out"), Q("dest_out"))
          /\ SameRes(P("src"), Q("dest")) /\ SameRes(P("atop"), Q("dest_atop")) /\ SameRes(P("x_or"), Q("x_or")) /\ SameRes(P("clear"), Q("clear"))
Clear == P("clear").a = 0
Alphas == /\ Near(P("src").a, a) /\ Near(P("dest").a, b) /\ Near(P("over").a, a + b - Mul(a, b)) /\ Near(P("in").a, Mul(a, b)) /\ Near(P("out").a, Mul(a, U - b))
          /\ Near(P("atop").a, b) /\ Near(P("dest_atop").a, a) /\ Near(P("x_or").a, Mul(a, U - b) + Mul(b, U - a))
SrcDest == /\ (a > 1000) => \A i \in 1..3 : Abs(P("src").c[i] - S.c[i]) <= 4
           /\ (b > 1000) => \A i \in 1..3 : Abs(P("dest").c[i] - T.c[i]) <= 4
\* premultiplied results are sums of the regions' results
Sums == \A i \in 1..3 : /\ Abs(Pre(P("over"), i) - Pre(P("in"), i) - Pre(P("out"), i) - Pre(P("dest_out"), i)) <= 8
                        /\ Abs(Pre(P("atop"), i) - Pre(P("in"), i) - Pre(P("dest_out"), i)) <= 8
                        /\ Abs(Pre(P("x_or"), i) - Pre(P("out"), i) - Pre(P("dest_out"), i)) <= 8
                        /\ Abs(Pre(P("src"), i) - Pre(P("in"), i) - Pre(P("out"), i)) <= 8
PdNormal == SameRes(P("over"), Comp(TRUE, TRUE, "normal")) /\ SameRes(P("in"), Comp(FALSE, FALSE, "normal")) /\ SameRes(P("atop"), Comp(FALSE, TRUE, "normal"))
=============================================================================
