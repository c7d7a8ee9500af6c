------------------------------- MODULE Blend --------------------------------
(* Blend modes and the Porter-Duff operators.  A color here is a record
   [t, c, a] of type, components and alpha (0..U).                           *)
EXTENDS Spaces

One == U
Half == U \div 2
HardLight(s, d) == IF s <= Half THEN 2 * Mul(s, d) ELSE U - Mul(U - d, U - 2 * (s - Half))
\* per component functions of the overlapping region: source s, destination d
BlendFn(f, s, d) ==
  CASE f = "normal"       -> s
    [] f = "multiply"     -> Mul(s, d)
    [] f = "screen"       -> U - Mul(U - s, U - d)
    [] f = "overlay"      -> HardLight(d, s)
    [] f = "darken"       -> Min(s, d)
    [] f = "lighten"      -> Max(s, d)
    [] f = "color_dodge"  -> IF d = 0 THEN 0 ELSE IF s = U THEN U ELSE Min(U, Div(d, U - s))
    [] f = "linear_dodge" -> s + d
    [] f = "color_burn"   -> IF d = U THEN 0 ELSE IF s = 0 THEN U ELSE Min(U, Div(U - d, s))
    [] f = "linear_burn"  -> s + d - U
    [] f = "hard_light"   -> HardLight(s, d)
    [] f = "soft_light"   -> IF s <= Half THEN Mul(d, s + Half) ELSE U - Mul(U - d, U - (s - Half))
    [] f = "vivid_light"  -> IF s <= Half THEN (IF d = 0 THEN 0 ELSE IF s = Half THEN U ELSE Min(Huge, Div(d, U - 2 * s)))
                             ELSE (IF d = U THEN U ELSE IF s = U THEN 0 ELSE U - Div(U - d, 2 * (s - Half)))
    [] f = "linear_light" -> IF s <= Half THEN d + 2 * s - U ELSE d + 2 * (s - Half)
    [] f = "pin_light"    -> IF s <= Half THEN Min(d, 2 * s) ELSE Max(d, 2 * (s - Half))
    [] f = "hard_mix"     -> IF s < U - d THEN 0 ELSE U
    [] f = "difference"   -> Abs(s - d)
    [] f = "subtract"     -> s - d
    [] f = "divide"       -> IF d = 0 THEN 0 ELSE IF s = 0 THEN U ELSE Div(d, s)
    [] f = "plus_lighter" -> s + d
    [] f = "plus_darker"  -> s + d - U
    [] f = "exclusion"    -> d + s - 2 * Mul(d, s)
SeparableModes == {"normal", "multiply", "screen", "overlay", "darken", "lighten", "color_dodge", "linear_dodge", "color_burn",
  "linear_burn", "hard_light", "soft_light", "vivid_light", "linear_light", "pin_light", "hard_mix", "difference", "subtract",
  "divide", "plus_lighter", "plus_darker", "exclusion"}
HcyModes == {"hue", "saturation", "color", "luminosity"}
\* caller supplied functions used in the conformance runs
CustomFn(k, s, d) == CASE k = 0 -> s [] k = 1 -> d [] k = 2 -> Mul(s, d) [] k = 3 -> (s + d) \div 2
                       [] k = 4 -> U - s [] k = 5 -> s - d [] OTHER -> 2 * U

(* The general compositing law: us and ud select the source-only and the
   destination-only region, ub the overlap, in which b holds the values of
   the components; s, d: [c: deep RGB, a].                                   *)
Regions(sa, da) == [s |-> Mul(sa, U - da), d |-> Mul(da, U - sa), b |-> Mul(sa, da)]
Composite(s, d, us, ud, ub, b) ==
  LET r == Regions(s.a, d.a)
      as == IF us THEN r.s ELSE 0
      ad == IF ud THEN r.d ELSE 0
      al == as + ad + (IF ub THEN r.b ELSE 0)
      us1 == IF us THEN U ELSE 0 ud1 == IF ud THEN U ELSE 0 ub1 == IF ub THEN U ELSE 0
      n(i) == IF al = 0 THEN 0
              ELSE Clamp(Frac(<<<<us1, s.a, U - d.a, s.c[i]>>, <<ud1, d.a, U - s.a, d.c[i]>>, <<ub1, s.a, d.a, b[i]>>>>,
                              <<<<us1, s.a, U - d.a>>, <<ud1, d.a, U - s.a>>, <<ub1, s.a, d.a>>>>), 0, U)
  IN  [c |-> <<n(1), n(2), n(3)>>, a |-> MkA(al)]

\* the deep RGB color back in the type of the source
Back(o, t, D) == [t |-> t, c |-> Conv("RGB_DEEP", o.c, t, D), a |-> ConvA("RGB_DEEP", o.a, t)]
Deep(o, D) == [t |-> "RGB_DEEP", c |-> Conv(o.t, o.c, "RGB_DEEP", D), a |-> o.a]
Map2(g(_, _), x, y) == <<g(x[1], y[1]), g(x[2], y[2]), g(x[3], y[3])>>

SepBlend(f, k, us, ud, x, y, D) ==
  LET s == Deep(x, D) d == Deep(y, D)
      g(p, q) == IF Free \in {p, q} THEN Free ELSE IF f = "custom" THEN CustomFn(k, p, q) ELSE BlendFn(f, p, q)
  IN  Back(Composite(s, d, us, ud, TRUE, Map2(g, s.c, d.c)), x.t, D)
\* dissolve: pick is the sequence of choices, TRUE for the source's component
DissolveBlend(pick, us, ud, x, y, D) ==
  LET s == Deep(x, D) d == Deep(y, D)
  IN  Back(Composite(s, d, us, ud, TRUE, <<IF pick[1] THEN s.c[1] ELSE d.c[1], IF pick[2] THEN s.c[2] ELSE d.c[2],
                                            IF pick[3] THEN s.c[3] ELSE d.c[3]>>), x.t, D)
HcyBlend(f, x, y, D) ==
  LET s == Conv(x.t, x.c, "HCY", D) d == Conv(y.t, y.c, "HCY", D)
      sa == ConvA(x.t, x.a, "HCY")
      r == CASE f = "hue"        -> <<s[1], d[2], d[3]>>
             [] f = "saturation" -> <<d[1], s[2], d[3]>>
             [] f = "color"      -> <<s[1], s[2], d[3]>>
             [] OTHER            -> <<d[1], d[2], s[3]>>
  IN  [t |-> x.t, c |-> Conv("HCY", r, x.t, D), a |-> ConvA("HCY", sa, x.t)]

\* regions a Porter-Duff operator keeps and where the overlap's color comes from
PdRule(f) ==
  CASE f = "src"       -> <<TRUE, FALSE, TRUE, "s">>
    [] f = "dest"      -> <<FALSE, TRUE, TRUE, "d">>
    [] f = "atop"      -> <<FALSE, TRUE, TRUE, "s">>
    [] f = "dest_atop" -> <<TRUE, FALSE, TRUE, "d">>
    [] f = "over"      -> <<TRUE, TRUE, TRUE, "s">>
    [] f = "dest_over" -> <<TRUE, TRUE, TRUE, "d">>
    [] f = "in"        -> <<FALSE, FALSE, TRUE, "s">>
    [] f = "dest_in"   -> <<FALSE, FALSE, TRUE, "d">>
    [] f = "out"       -> <<TRUE, FALSE, FALSE, "0">>
    [] f = "dest_out"  -> <<FALSE, TRUE, FALSE, "0">>
    [] f = "x_or"      -> <<TRUE, TRUE, FALSE, "0">>
    [] f = "clear"     -> <<FALSE, FALSE, FALSE, "0">>
PdOps == {"src", "dest", "atop", "dest_atop", "over", "dest_over", "in", "dest_in", "out", "dest_out", "x_or", "clear"}
PdDeep(f, s, d) == LET r == PdRule(f)
                       b == IF r[4] = "s" THEN s.c ELSE IF r[4] = "d" THEN d.c ELSE <<0, 0, 0>>
                   IN  Composite(s, d, r[1], r[2], r[3], b)
PdBlend(f, x, y, D) == Back(PdDeep(f, Deep(x, D), Deep(y, D)), x.t, D)
=============================================================================
