-------------------------------- MODULE Num --------------------------------
(* Real arithmetic for the colour model, in fixed point.

   A real number x is represented by the integer nearest to x * 10^6 (one
   "micro").  Sum, difference, comparison, Min and Max are those of the
   integers; the other operators are defined below.  Products, quotients and
   square roots are *defined* in TLA+; TLC could not enumerate the CHOOSE, so
   java/Num.java evaluates the same function (64 bit integers).  The
   transcendental functions have no finite definition in TLA+: they are
   declared here by the equation that characterises them and evaluated in
   java/Num.java.  No knowledge about colours lives outside of TLA+.

   Every operator that can leave the representable range saturates at
   +-Huge; NaN is the result of an undefined operation; Free stands for a
   value the documentation leaves open and absorbs everything.             *)
EXTENDS Integers, Sequences

U    == 1000000                     \* the number 1
Huge == 2000000000                  \* saturation bound, 2000.0
NaN  == 2000000001                  \* "not a number"
Free  == 2000000002                  \* "every value is acceptable"

Abs(a)    == IF a < 0 THEN -a ELSE a
Min(a, b) == IF a <= b THEN a ELSE b
Max(a, b) == IF a >= b THEN a ELSE b
Clamp(x, lo, hi) == IF x = Free THEN Free ELSE IF x = NaN THEN hi ELSE Max(lo, Min(x, hi))
Min3(a, b, c) == Min(a, Min(b, c))
Max3(a, b, c) == Max(a, Max(b, c))
IsNum(a)  == a >= -Huge /\ a <= Huge

Sat(r) == IF r > Huge THEN Huge ELSE IF r < -Huge THEN -Huge ELSE r
Nearest(p, q) ==  \* the integer nearest to p / q, q # 0
  CHOOSE r \in Int : 2 * Abs(p - r * q) <= Abs(q)

Add(a, b) == IF a = Free \/ b = Free THEN Free ELSE IF IsNum(a) /\ IsNum(b) THEN Sat(a + b) ELSE NaN
Sub(a, b) == IF a = Free \/ b = Free THEN Free ELSE IF IsNum(a) /\ IsNum(b) THEN Sat(a - b) ELSE NaN
Mul(a, b) == IF a = Free \/ b = Free THEN Free ELSE IF IsNum(a) /\ IsNum(b) THEN Sat(Nearest(a * b, U)) ELSE NaN
Div(a, b) == IF a = Free \/ b = Free THEN Free ELSE IF ~(IsNum(a) /\ IsNum(b)) THEN NaN
             ELSE IF b = 0 THEN (IF a = 0 THEN NaN ELSE IF a > 0 THEN Huge ELSE -Huge)
             ELSE Sat(Nearest(a * U, b))
\* a * b / c without intermediate rounding
MulDiv(a, b, c) == IF Free \in {a, b, c} THEN Free ELSE IF ~(IsNum(a) /\ IsNum(b) /\ IsNum(c)) THEN NaN
             ELSE IF c = 0 THEN NaN ELSE Sat(Nearest(a * b, c))
\* sum of products of two sequences of the same length, one rounding
Dot(x, y) == IF \E i \in 1..Len(x) : x[i] = Free \/ y[i] = Free THEN Free ELSE
             LET S[i \in 0..Len(x)] == IF i = 0 THEN 0 ELSE S[i-1] + x[i] * y[i]
             IN  Sat(Nearest(S[Len(x)], U))
\* quotient of two sums of products, one rounding: the tuples of n have one
\* factor more than those of d
RECURSIVE Prod(_, _), SumProd(_, _)
Prod(t, n) == IF n = 0 THEN 1 ELSE t[n] * Prod(t, n - 1)
SumProd(s, n) == IF n = 0 THEN 0 ELSE Prod(s[n], Len(s[n])) + SumProd(s, n - 1)
Frac(n, d) == IF \E i \in 1..Len(n) : \E j \in 1..Len(n[i]) : n[i][j] = Free THEN Free
              ELSE Sat(Nearest(SumProd(n, Len(n)), SumProd(d, Len(d))))
Sqrt(a) == IF a = Free THEN Free ELSE IF ~IsNum(a) \/ a < 0 THEN NaN
           ELSE CHOOSE r \in Nat : Abs(r * r - a * U) <= r
\* square root of the sum of squares
Norm(x) == IF \E i \in 1..Len(x) : x[i] = Free THEN Free ELSE
           LET S[i \in 0..Len(x)] == IF i = 0 THEN 0 ELSE S[i-1] + x[i] * x[i]
           IN  CHOOSE r \in Nat : Abs(r * r - S[Len(x)]) <= r
Cbrt(a) == CHOOSE r \in Int : \A s \in {r-1, r+1} : Abs(r*r*r - a*U*U) <= Abs(s*s*s - a*U*U)

\* b ^ e, sin x, cos x (x in degrees), the angle of (x, y) in degrees within
\* [0, 360), e ^ x and log10 x
Pow(b, e)   == CHOOSE r \in Int : TRUE
Sin(x)      == CHOOSE r \in -U .. U : TRUE
Cos(x)      == CHOOSE r \in -U .. U : TRUE
Angle(y, x) == CHOOSE r \in 0 .. 360*U : TRUE
ExpN(x)     == CHOOSE r \in Nat : TRUE
Log10(x)    == CHOOSE r \in Int : TRUE
\* the remainder of the division of a by b > 0, with the sign of a
Fmod(a, b) == IF ~IsNum(a) THEN a ELSE IF a >= 0 THEN a % b ELSE -((-a) % b)
\* rounding to the nearest whole number, ties away from zero
Round(a) == IF ~IsNum(a) THEN a ELSE IF a >= 0 THEN ((a + 500000) \div U) * U ELSE -(((-a + 500000) \div U) * U)
\* Conformance checks evaluate the model under rounding errors, to learn how
\* precisely a value is determined: after SetNoise(k), k > 0, the operators
\* above but Add and Sub return results off by up to one micro and one unit in
\* the last place of single precision, at random; after SetNoise(0) they are as
\* defined.  Jit(x) is x with such an error.
SetNoise(k) == TRUE
Jit(x) == x
\* determinant of the n x n matrix with rows v (exact but for the final rounding)
RECURSIVE Det(_, _), Cof(_, _, _)
Det(v, n) == IF n = 1 THEN v[1] ELSE Cof(v, n, n)
Cof(v, n, j) ==
  IF j = 0 THEN 0
  ELSE LET m == [k \in 1..((n - 1) * (n - 1)) |-> LET p == (k - 1) \div (n - 1) q == (k - 1) % (n - 1)
                                                  IN  v[(p + 1) * n + q + (IF q + 1 < j THEN 1 ELSE 2)]]
       IN  Add(Cof(v, n, j - 1), Mul(IF j % 2 = 1 THEN v[j] ELSE -v[j], Det(m, n - 1)))
=============================================================================
