------------------------------- MODULE Adapt --------------------------------
(* Chromatic adaptation transforms.                                           *)
EXTENDS Distance

CatM(f) ==
  CASE f = "von_kries" -> <<400240, 707600, -80810, -226300, 1165320, 45700, 0, 0, 918220>>
    [] f \in {"bradford", "bradford_s", "cmccat97", "cmccat97_s"} -> <<895100, 266400, -161400, -750200, 1713500, 36700, 38900, -68500, 1029600>>
    [] f = "xyz_scale" -> <<U, 0, 0, 0, U, 0, 0, 0, U>>
    [] f = "sharp" -> <<1269400, -98800, -170600, -836400, 1800600, 35700, 29700, -31500, 1001800>>
    [] f \in {"cmccat2000", "cmccat2000_s"} -> <<798200, 338900, -137100, -591800, 1551200, 40600, 800, 23900, 975300>>
    [] OTHER -> <<732800, 429600, -162400, -703600, 1697500, 6100, 3000, 13600, 983400>>
CatI(f) ==   \* published inverses, rounded as published
  CASE f = "von_kries" -> <<1859936, -1129382, 219897, 361191, 638813, -6, 0, 0, 1089064>>
    [] f \in {"bradford", "bradford_s"} -> <<986993, -147054, 159963, 432305, 518360, 49291, -8529, 40043, 968487>>
    [] f \in {"cmccat97", "cmccat97_s"} -> <<986990, -147050, 159960, 432310, 518360, 49290, -8530, 40040, 968490>>
    [] f = "xyz_scale" -> <<U, 0, 0, 0, U, 0, 0, 0, U>>
    [] f = "sharp" -> <<815630, 47150, 137220, 379110, 576940, 44000, -12260, 16740, 995520>>
    [] f \in {"cmccat2000", "cmccat2000_s"} -> <<1076450, -237660, 161210, 410960, 554340, 34690, -10950, -13390, 1024340>>
    [] OTHER -> <<1096120, -278870, 182750, 454370, 473530, 72100, -9630, -5700, 1015330>>
FullCat == {"von_kries", "bradford_s", "xyz_scale", "sharp", "cmccat97_s", "cmccat2000_s", "cat02_s"}

\* degree of adaptation; f: surround factor, la, lr: luminances in units of 1
Degree(f, p) ==
  Unit(CASE f = "cmccat97" -> LET w == p[1] la == p[2]
                              IN  w - Div(w, U + 2 * Pow(la, 250000) + Mul(la, MulDiv(la, 1, 300)))
         [] f = "cmccat2000" -> Mul(p[1], Mul(80000, Log10(MulDiv(p[2] + p[3], 1, 2))) + 760000 - MulDiv(450000, p[2] - p[3], p[2] + p[3]))
         [] OTHER -> Mul(p[1], U - MulDiv(10, ExpN(MulDiv(-p[2] - 42 * U, 1, 92)), 36)))

Scale(v, s) == <<Div(v[1], s), Div(v[2], s), Div(v[3], s)>>
\* tristimulus x seen under white sw, as it appears under white dw; p: parameters
Adapted(f, p, x, sw, dw) ==
  LET M == CatM(f)
      rgb == Vec3(M, x)
      s == Vec3(M, sw) d == Vec3(M, dw)
      sn == Vec3(M, Scale(sw, sw[2])) dn == Vec3(M, Scale(dw, dw[2]))
      r == IF x[2] > 0 THEN Scale(rgb, x[2]) ELSE rgb
      e == Pow(Div(sn[3], dn[3]), 83400)       \* exponent of the blue channel
      sgn(v) == IF r[3] < 0 THEN -v ELSE v
      D == Degree(f, p)
      Part1(q, i) == Add(Mul(D, MulDiv(q, d[i], s[i])), U - D)
      out ==
        CASE f \in FullCat -> <<MulDiv(rgb[1], d[1], s[1]), MulDiv(rgb[2], d[2], s[2]), MulDiv(rgb[3], d[3], s[3])>>
          [] f = "bradford" -> <<Mul(x[2], MulDiv(dn[1], r[1], sn[1])), Mul(x[2], MulDiv(dn[2], r[2], sn[2])),
                                 sgn(Mul(x[2], Mul(dn[3], Pow(Abs(Div(r[3], sn[3])), e))))>>
          [] f = "cmccat97" -> <<Mul(x[2], Mul(r[1], Add(MulDiv(D, dn[1], sn[1]), U - D))),
                                 Mul(x[2], Mul(r[2], Add(MulDiv(D, dn[2], sn[2]), U - D))),
                                 sgn(Mul(x[2], Mul(Pow(Abs(r[3]), e), Add(MulDiv(D, dn[3], Pow(sn[3], e)), U - D))))>>
          [] f = "cmccat2000" -> LET q == Div(sw[2], dw[2])
                                 IN  <<Mul(rgb[1], Part1(q, 1)), Mul(rgb[2], Part1(q, 2)), Mul(rgb[3], Part1(q, 3))>>
          [] OTHER -> <<Mul(rgb[1], Part1(U, 1)), Mul(rgb[2], Part1(U, 2)), Mul(rgb[3], Part1(U, 3))>>
      \* beyond the range of the representation
      over == f \in {"bradford", "cmccat97"} /\ \E i \in 1..3 : Abs(r[i]) = Huge
  IN  IF over THEN <<Free, Free, Free>> ELSE Mk("XYZ", Vec3(CatI(f), out))
\* D: the definition of the color, E: the one with the target white
AdaptOp(f, p, x, D, E) ==
  LET c == Conv(x.t, x.c, "XYZ", D)
  IN  [t |-> x.t, c |-> Conv("XYZ", Adapted(f, p, c, D.wt, E.wt), x.t, E), a |-> ConvA("XYZ", x.a, x.t)]
=============================================================================
