-------------------------------- MODULE Calc --------------------------------
(* Weighted sums, differences and averages; adjustments; combinations.        *)
EXTENDS Blend

WSum(w1, x, w2, y) == Dot(<<w1, w2>>, <<x, y>>)
RootSum(w1, x, w2, y) == \* root of the weighted sum of squares
  Norm(<<Mul(Sqrt(w1), x), Mul(Sqrt(w2), y)>>)
MapC(g(_, _), x, y, n) == CASE n = 1 -> <<g(x[1], y[1])>> [] n = 3 -> <<g(x[1], y[1]), g(x[2], y[2]), g(x[3], y[3])>>
                            [] OTHER -> <<g(x[1], y[1]), g(x[2], y[2]), g(x[3], y[3]), g(x[4], y[4])>>

\* hue types are summed as vectors in the HSV cone
HsvVec(c) == <<Mul(c[2], Cos(c[1])), Mul(c[2], Sin(c[1])), c[3]>>
FromVec(v) == <<IF v[1] = 0 /\ v[2] = 0 THEN 0 ELSE Angle(v[2], v[1]), Norm(<<v[1], v[2]>>), v[3]>>
\* the space a type is summed in
SumSpace(t) == IF t \in CylTypes THEN "HSV" ELSE IF t \in {"LAB", "LCH_AB", "LCH_UV"} THEN "XYZ" ELSE t

\* combination of x and y (y already of x's type) with the component law g and the alpha law ga
Combine(g(_, _), ga(_, _), inc, x, y, D) ==
  LET S == SumSpace(x.t)
      p == Conv(x.t, x.c, S, D) q == Conv(y.t, y.c, S, D)
      r == IF S = "HSV" THEN LET v == FromVec(MapC(g, HsvVec(p), HsvVec(q), 3)) IN Mk("HSV", [v EXCEPT ![1] = Add(@, x.q * 2000)]) ELSE Mk(S, MapC(g, p, q, NC(S)))
      a == IF inc THEN MkA(ga(x.a, y.a)) ELSE x.a
  IN  [t |-> x.t, c |-> Conv(S, r, x.t, D), a |-> a]
As(o, t, D) == IF o.t = t THEN o ELSE [t |-> t, c |-> Conv(o.t, o.c, t, D), a |-> ConvA(o.t, o.a, t)]
AddOp(w1, w2, inc, x, y0, D) ==
  LET y == As(y0, x.t, D)
      lin(a, b) == WSum(w1, a, w2, b)
      root(a, b) == RootSum(w1, a, w2, b)
  IN  IF x.t \in {"RGB_TRUE", "RGB_DEEP"} THEN Combine(root, root, inc, x, y, D) ELSE Combine(lin, lin, inc, x, y, D)
MixOp(w, inc, x, y, D) == AddOp(w, U - w, inc, x, y, D)
SubOp(w, inc, x, y0, D) == LET dif(a, b) == Sub(a, Mul(w, b)) IN Combine(dif, dif, inc, x, As(y0, x.t, D), D)

RECURSIVE SumOf(_, _)
SumOf(xs, n) == IF n = 0 THEN 0 ELSE Add(xs[n], SumOf(xs, n - 1))
\* quotients and remainders apart: the sum of many components may leave the integers
Mean(xs) == LET n == Len(xs) IN
            IF n = 0 THEN NaN ELSE IF n < 5 \/ \E j \in 1..n : Abs(xs[j]) > 1000 * U THEN MulDiv(SumOf(xs, n), 1, n)
            ELSE SumOf([j \in 1..n |-> xs[j] \div n], n) + ((SumOf([j \in 1..n |-> xs[j] % n], n) + (n \div 2)) \div n)
AvgOp(inc, xs) ==   \* xs: colors of one type
  LET t == xs[1].t
      m(i) == LET col == [j \in 1..Len(xs) |-> xs[j].c[i]] IN Mean(col)
      c == CASE NC(t) = 1 -> <<m(1)>> [] NC(t) = 3 -> <<m(1), m(2), m(3)>> [] OTHER -> <<m(1), m(2), m(3), m(4)>>
  IN  [t |-> t, c |-> Mk(t, c), a |-> IF inc THEN LET al == [j \in 1..Len(xs) |-> xs[j].a] IN Mean(al) ELSE xs[1].a]

-----------------------------------------------------------------------------
HslBack(h, x, D) == LET hc == Mk("HSL", h) IN
                    [t |-> x.t, c |-> Conv("HSL", hc, x.t, D), a |-> ConvA("HSL", x.a, x.t)]
Hsl(x, D) == Conv(x.t, x.c, "HSL", D)
\* p: the percentage, U = 100 %
AdjustOp(f, p, x, D) ==
  CASE p = 0 /\ f \in {"sat_hsl", "lum_hsl"} -> x
    [] f = "sat_rgb" -> LET c == Conv(x.t, x.c, "RGB_DEEP", D)
                            l == Dot(<<299000, 587000, 114000>>, c)
                        IN  Back([c |-> Mk("RGB_DEEP", <<Sub(c[1], Mul(p, Sub(l, c[1]))), Sub(c[2], Mul(p, Sub(l, c[2]))), Sub(c[3], Mul(p, Sub(l, c[3])))>>), a |-> x.a], x.t, D)
    [] f = "lum_rgb" -> LET c == Conv(x.t, x.c, "RGB_DEEP", D) q == Add(U, p)
                        IN  Back([c |-> Mk("RGB_DEEP", <<Mul(c[1], q), Mul(c[2], q), Mul(c[3], q)>>), a |-> x.a], x.t, D)
    [] f = "sat_hsl" -> LET h == Hsl(x, D) IN HslBack(<<h[1], Mul(h[2], Add(U, p)), h[3]>>, x, D)
    [] OTHER         -> LET h == Hsl(x, D) IN HslBack(<<h[1], h[2], Mul(h[3], Add(U, p))>>, x, D)

\* the color whose HSL hue is the one of x advanced by deg
Turn(deg, x, D) == LET h == Hsl(x, D) IN HslBack(<<IF h[1] = Free THEN Free ELSE Add(h[1], deg + x.q * 2000), h[2], h[3]>>, x, D)
\* the next color of a monochromatic set
Mono(mode, p, x, D) == LET h == Hsl(x, D) q == U - p
                       IN  HslBack(<<h[1], IF mode \in {0, 2} THEN Mul(h[2], q) ELSE h[2], IF mode \in {1, 2} THEN Mul(h[3], q) ELSE h[3]>>, x, D)
\* i-th color (from 0) of a set of n
ComboCount(f, n) == CASE f = "complimentary" -> 1 [] f \in {"triplet", "analogous", "split"} -> 3 [] f = "quartet" -> 4
                      [] f = "quintet" -> 5 [] OTHER -> n
\* position of the input color itself, -1 if it is not part of the result
ComboSelf(f) == CASE f = "complimentary" -> -1 [] f \in {"analogous", "split"} -> 1 [] OTHER -> 0
ComboOp(f, n, i, p, x, D) ==
  CASE f = "complimentary" -> Turn(180 * U, x, D)
    [] f = "analogous" -> Turn(IF i = 0 THEN -p ELSE p, x, D)
    [] f = "split" -> Turn(IF i = 0 THEN -p ELSE p, [x EXCEPT !.c = Turn(180 * U, x, D).c, !.q = 0], D)
    [] OTHER -> Turn(MulDiv(i * 360, U, n), x, D)
=============================================================================
