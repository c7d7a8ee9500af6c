-------------------------------- MODULE Defs ---------------------------------
(* Color-space definitions as functions of their primaries and white point.   *)
EXTENDS Tables, Matrices, Spaces

\* The RGB to XYZ matrix with primaries p = <<xr, yr, xg, yg, xb, yb>> (chromaticities)
\* and white tristimulus w: columns proportional to the primaries, whose sum is w.
\* Determinants are taken of ten times the matrices, for precision.
MatrixOf(p, w) ==
  LET P == <<p[1], p[3], p[5], p[2], p[4], p[6], U - p[1] - p[2], U - p[3] - p[4], U - p[5] - p[6]>>
      T == [i \in 1..9 |-> 10 * P[i]]
      With(j) == [i \in 1..9 |-> IF ((i - 1) % 3) + 1 = j THEN 10 * w[((i - 1) \div 3) + 1] ELSE T[i]]
      d == Det(T, 3)
      s == <<Det(With(1), 3), Det(With(2), 3), Det(With(3), 3)>>
  IN  TLCEval([i \in 1..9 |-> MulDiv(P[i], s[((i - 1) % 3) + 1], d)])
InverseOf(m) ==
  LET A == [r |-> 3, c |-> 3, v |-> [i \in 1..9 |-> 10 * m[i]]]
      d == DetFix(A) a == AdjFix(A)
  IN  TLCEval([i \in 1..9 |-> MulDiv(10 * U, a.v[i], d)])
\* a definition as the conversions see it
DefOf(p, w, g) == LET m == MatrixOf(p, w)
                  IN  TLCEval([m |-> m, im |-> InverseOf(m), wt |-> <<w[1], w[2], w[3]>>, xy |-> <<w[4], w[5]>>, f |-> g.f, i |-> g.i, e |-> <<0, 0, 0>>])
PresetDef(n) == DefOf(SpacesTable[n].p, Whites[SpacesTable[n].w], Preset(SpacesTable[n].g))
=============================================================================
