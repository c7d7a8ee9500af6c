------------------------------ MODULE Distance -------------------------------
(* Color distances.  Squared distances are given by their root.               *)
EXTENDS Calc

Diff3(p, q) == <<Sub(p[1], q[1]), Sub(p[2], q[2]), Sub(p[3], q[3])>>
\* D and E: the definitions of x and y
EuclidIn(T, x, y, D, E) == Norm(Diff3(Conv(x.t, x.c, T, D), Conv(y.t, y.c, T, E)))
Weighted(x, y, D, E) ==
  LET p == Conv(x.t, x.c, "RGB_DEEP", D) q == Conv(y.t, y.c, "RGB_DEEP", E)
      r == MulDiv(Add(p[1], q[1]), 255, 512)
      d == Diff3(p, q)
  IN  IF Free \in {p[i] : i \in 1..3} \cup {q[i] : i \in 1..3} THEN Free
      ELSE Norm(<<Mul(Sqrt(2 * U + r), d[1]), 2 * d[2], Mul(Sqrt(2 * U + (996094 - r)), d[3])>>)
LabOf(x, D) == Conv(x.t, x.c, "LAB", D)
Cie76(x, y, D, E) == EuclidIn("LAB", x, y, D, E)
\* the hue part of a Lab difference: sqrt(da^2 + db^2 - dC^2)
DeltaH(p, q) == LET c1 == Norm(<<p[2], p[3]>>) c2 == Norm(<<q[2], q[3]>>)
                    e == Norm(<<Sub(p[2], q[2]), Sub(p[3], q[3])>>) d == Abs(c1 - c2)
                IN  IF e <= d THEN 0 ELSE LET f == Sqrt(e - d) g == Sqrt(e + d) IN Mul(f, g)
Cie94(k, x, y, D, E) ==   \* k = <<kL, k1, k2, kC, kH>>
  LET p == LabOf(x, D) q == LabOf(y, E)
      c1 == Norm(<<p[2], p[3]>>) c2 == Norm(<<q[2], q[3]>>)
  IN  Norm(<<Div(p[1] - q[1], k[1]), Div(c1 - c2, Mul(k[4], U + Mul(k[2], c1))), Div(DeltaH(p, q), Mul(k[5], U + Mul(k[3], c1)))>>)
Cmc(l, c, x, y, D, E) ==
  LET p == LabOf(x, D) q == LabOf(y, E)
      c1 == Norm(<<p[2], p[3]>>) c2 == Norm(<<q[2], q[3]>>)
      h  == IF c1 = 0 THEN 0 ELSE Angle(p[3], p[2])
      c4 == Mul(Mul(c1, Div(c1, 43588989)), U)            \* C1^2 / sqrt(1900)
      f  == Div(c4, Norm(<<c4, U>>))                      \* sqrt(C1^4 / (C1^4 + 1900))
      t  == IF h > 164 * U /\ h <= 345 * U THEN 560000 + Abs(MulDiv(Cos(h + 168 * U), 2, 10))
            ELSE 360000 + Abs(MulDiv(Cos(h + 35 * U), 4, 10))
      sl == IF p[1] < 16 * U THEN 511000 ELSE Div(Mul(40975, p[1]), U + Mul(17650, p[1]))
      sc == Div(Mul(63800, c1), U + Mul(13100, c1)) + 638000
      sh == Mul(sc, Mul(f, t) + U - f)
  IN  Norm(<<Div(p[1] - q[1], Mul(l, sl)), Div(c1 - c2, Mul(c, sc)), Div(DeltaH(p, q), sh)>>)

(* CIEDE2000 as far as this library defines it.  Its rotation term grows as
   exp(+((H - 275)/25)^2) instead of exp(-...) (known finding, see DESIGN.md)
   and hues are whole degrees; the value is only determined where neither
   matters, otherwise Cie00 is Free.                                         *)
Cie00(k, x, y, D, E) ==
  LET p == LabOf(x, D) q == LabOf(y, E)
      l == MulDiv(p[1] + q[1], 1, 2)
      c1 == Norm(<<p[2], p[3]>>) c2 == Norm(<<q[2], q[3]>>)
      cb == MulDiv(c1 + c2, 1, 2)
      r7 == Pow(Div(25 * U, cb), 7 * U)
      g == IF cb < 2500000 THEN 0 ELSE Sqrt(Div(U, Add(U, r7)))
      ap(v) == Add(v, Mul(MulDiv(v, 1, 2), U - g))
      \* "Free" hue: too close to a whole degree to tell the truncated hue, or undefined
      hq(v) == IF v[2] = 0 /\ v[3] = 0 THEN 0 ELSE
               LET h == Angle(v[3], ap(v[2])) s == IF h > 180 * U THEN h - 360 * U ELSE h  \* truncation is towards 0 in (-180, 180]
                   m == Abs(s) % U
                   w == IF s >= 0 THEN s \div U ELSE -((-s) \div U)
               IN  IF m < 2000 \/ m > U - 2000 \/ Norm(<<v[2], v[3]>>) < 500000 THEN Free ELSE IF w < 0 THEN w + 360 ELSE w
      h1 == hq(p) h2 == hq(q)
      hs == IF Abs(h1 - h2) > 180 THEN h1 + h2 + 360 ELSE h1 + h2     \* 2 H
      H  == MulDiv(hs * U, 1, 2)
      dh == IF Abs(h2 - h1) <= 180 THEN h2 - h1 ELSE IF h2 <= h1 THEN h2 - h1 + 360 ELSE h2 - h1 - 360
      dL == q[1] - p[1]
      dC == c2 - c1
      dH == 2 * Mul(Mul(Sqrt(c1), Sqrt(c2)), Sin(MulDiv(dh * U, 1, 2)))
      t == U - Mul(170000, Cos(H - 30 * U)) + Mul(240000, Cos(2 * H)) + Mul(320000, Cos(3 * H + 6 * U)) - Mul(200000, Cos(4 * H - 63 * U))
      sc == U + Mul(k[2], cb)
      sh == U + Mul(Mul(k[3], cb), t)
      l5 == Abs(l - 50 * U)
      sl == U + Div(Mul(Mul(k[3], l5), l5), Norm(<<4472136, l5>>))
      z == MulDiv(H - 275 * U, 1, 25)
      e == MulDiv(60, ExpN(Mul(z, z)), 1)      \* degrees, grows quickly
      rt == -2 * Mul(g, Sin(e))
      vL == Div(dL, Mul(k[1], sl)) vC == Div(dC, Mul(k[4], sc)) vH == Div(dH, Mul(k[5], sh))
      \* a tenth of each, to stay inside the range
      tL == MulDiv(vL, 1, 10) tC == MulDiv(vC, 1, 10) tH == MulDiv(vH, 1, 10)
      sq == Add(Add(Mul(tL, tL), Mul(tC, tC)), Add(Mul(tH, tH), Mul(Mul(rt, tC), tH)))
  IN  IF h1 = Free \/ h2 = Free THEN Free
      ELSE IF Mul(z, z) > 80 * U THEN Free     \* the exponential overflows
      ELSE IF Abs(z) > 1500000 /\ Abs(Mul(Mul(2 * g, vC), vH)) > 10000 THEN Free     \* rotation term not determined
      ELSE IF Abs(z) > 1500000 THEN Norm(<<vL, vC, vH>>)
      ELSE IF sq <= 100 THEN Free ELSE Mul(10 * U, Sqrt(sq))

(* CIEDE2000 as published (CIE 142-2001; k: the L, C and H parametric factors
   and the constants of its weighting functions).  Decides the known findings. *)
Cie00Published(k, x, y, D, E) ==
  LET p == LabOf(x, D) q == LabOf(y, E)
      l == MulDiv(p[1] + q[1], 1, 2)
      cm == MulDiv(Norm(<<p[2], p[3]>>) + Norm(<<q[2], q[3]>>), 1, 2)
      g == IF cm < 2500000 THEN 0 ELSE Sqrt(Div(U, Add(U, Pow(Div(25 * U, cm), 7 * U))))
      pr(v) == <<Add(v[2], Mul(MulDiv(v[2], 1, 2), U - g)), v[3]>>
      a == pr(p) b == pr(q)
      c1 == Norm(a) c2 == Norm(b) cb == MulDiv(c1 + c2, 1, 2)
      h1 == IF c1 = 0 THEN 0 ELSE Angle(a[2], a[1])
      h2 == IF c2 = 0 THEN 0 ELSE Angle(b[2], b[1])
      z0 == c1 = 0 \/ c2 = 0
      dh == IF z0 THEN 0 ELSE IF Abs(h2 - h1) <= 180 * U THEN h2 - h1 ELSE IF h2 <= h1 THEN h2 - h1 + 360 * U ELSE h2 - h1 - 360 * U
      H == IF z0 THEN h1 + h2 ELSE IF Abs(h1 - h2) <= 180 * U THEN MulDiv(h1 + h2, 1, 2)
           ELSE IF h1 + h2 < 360 * U THEN MulDiv(h1 + h2 + 360 * U, 1, 2) ELSE MulDiv(h1 + h2 - 360 * U, 1, 2)
      dH == 2 * Mul(Mul(Sqrt(c1), Sqrt(c2)), Sin(MulDiv(dh, 1, 2)))
      t == U - Mul(170000, Cos(H - 30 * U)) + Mul(240000, Cos(2 * H)) + Mul(320000, Cos(3 * H + 6 * U)) - Mul(200000, Cos(4 * H - 63 * U))
      sc == U + Mul(k[2], cb)
      sh == U + Mul(Mul(k[3], cb), t)
      l5 == Abs(l - 50 * U)
      sl == U + Div(Mul(Mul(k[3], l5), l5), Norm(<<4472136, l5>>))
      z == MulDiv(H - 275 * U, 1, 25)
      zz == Mul(z, z)
      rt == -2 * Mul(IF cb < 2500000 THEN 0 ELSE Sqrt(Div(U, Add(U, Pow(Div(25 * U, cb), 7 * U)))),
                     Sin(IF zz > 20 * U THEN 0 ELSE Div(60 * U, ExpN(zz))))
      vL == Div(q[1] - p[1], Mul(k[1], sl)) vC == Div(c2 - c1, Mul(k[4], sc)) vH == Div(dH, Mul(k[5], sh))
  IN  Sqrt(Add(Add(Mul(vL, vL), Mul(vC, vC)), Add(Mul(vH, vH), Mul(Mul(rt, vC), vH))))
=============================================================================
