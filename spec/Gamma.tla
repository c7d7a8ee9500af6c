------------------------------- MODULE Gamma --------------------------------
(* Gamma curves: ordered lists of parts, each a function with an upper border
   (published functions of the predefined curves included).                 *)
EXTENDS Num

\* A part: kind, two parameters, exponent, border, identity of the function
Part(k, a, b, e, bo) == [k |-> k, a |-> a, b |-> b, e |-> e, bo |-> bo]
NoPart(bo)    == Part("none", 0, 0, 0, bo)
Lin(a, b, bo) == Part("lin", a, b, 0, bo)          \* a x + b
PowP(e, bo)   == Part("pow", 0, 0, e, bo)          \* x ^ e
Enc(a, b, e, bo) == Part("enc", a, b, e, bo)       \* a x ^ e - b
Dec(a, b, e, bo) == Part("dec", a, b, e, bo)       \* ((x + b) / a) ^ e
Sq(bo)        == Part("sq", 0, 0, 0, bo)           \* x x

PartVal(p, x) == CASE p.k = "lin" -> Add(Mul(p.a, x), p.b)
                   [] p.k = "div" -> Div(x, p.a)
                   [] p.k = "sq"  -> Mul(x, x)
                   [] p.k = "pow" -> Pow(x, p.e)
                   [] p.k = "enc" -> Sub(Mul(p.a, Pow(x, p.e)), p.b)
                   [] p.k = "dec" -> Pow(Div(Add(x, p.b), p.a), p.e)
                   [] OTHER -> x

Usable(parts, x) == {j \in 1..Len(parts) : parts[j].k # "none" /\ x <= parts[j].bo}
\* value of the curve at x: the first usable part (parts are sorted by border)
Curve(parts, x) == IF x = Free THEN Free ELSE IF x = NaN THEN NaN
                   ELSE LET u == Usable(parts, x)
                        IN  IF u = {} THEN x ELSE PartVal(parts[CHOOSE j \in u : \A k \in u : j <= k], x)

Recip(e) == Div(U, e)
Power(e) == [f |-> <<PowP(Recip(e), U)>>, i |-> <<PowP(e, U)>>]
Div1(a, bo) == Part("div", a, 0, 0, bo)
\* predefined curves: encoding and decoding parts
Preset(n) ==
  CASE n = "gamma1_8" -> Power(1800000)
    [] n = "gamma2_2" -> Power(2200000)
    [] n = "gamma2_6" -> Power(2600000)
    [] n = "gamma2_8" -> Power(2800000)
    [] n = "gammaAdobe" -> Power(2199219)
    [] n = "sRGB" -> [f |-> <<Lin(12920000, 0, 3131), Enc(1055000, 55000, 416667, U)>>,
                      i |-> <<Div1(12920000, 40450), Dec(1055000, 55000, 2400000, U)>>]
    [] n = "gammaRomm" -> [f |-> <<Lin(16000000, 0, 1953), PowP(555556, U)>>,
                           i |-> <<Div1(16000000, 31248), PowP(1800000, U)>>]
    [] n = "gammaUHDTV" -> [f |-> <<Lin(4500000, 0, 18054), Enc(1099000, 99000, 450000, U)>>,
                            i |-> <<Div1(4500000, 81000), Dec(1099000, 99000, 2222222, U)>>]
PresetNames == {"gamma1_8", "gamma2_2", "gamma2_6", "gamma2_8", "sRGB", "gammaAdobe", "gammaRomm", "gammaUHDTV"}
\* the parts a user of the library builds in the conformance runs
UserPart(k, bo) == CASE k = 0 -> NoPart(bo) [] k = 1 -> Lin(2000000, 0, bo) [] k = 2 -> Lin(500000, 0, bo) [] k = 3 -> Sq(bo)
                     [] k = 4 -> Lin(-U, U, bo) [] k = 5 -> Lin(U, 250000, bo) [] OTHER -> Lin(3000000, -U, bo)
=============================================================================
