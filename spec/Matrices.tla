------------------------------ MODULE Matrices ------------------------------
(* Matrices over fixed point numbers: [r, c, v], v row by row.               *)
EXTENDS Num

El(m, i, j) == m.v[(i - 1) * m.c + j]
Build(r, c, g(_, _)) == [r |-> r, c |-> c, v |-> [n \in 1..(r * c) |-> g(((n - 1) \div c) + 1, ((n - 1) % c) + 1)]]
Square(m) == m.r = m.c
Ident(n) == LET g(i, j) == IF i = j THEN U ELSE 0 IN Build(n, n, g)
MAdd(x, y) == LET g(i, j) == Add(El(x, i, j), El(y, i, j)) IN Build(x.r, x.c, g)
MSub(x, y) == LET g(i, j) == Sub(El(x, i, j), El(y, i, j)) IN Build(x.r, x.c, g)
RECURSIVE InnerSum(_, _, _, _, _)
InnerSum(x, y, i, j, n) == IF n = 0 THEN 0 ELSE Add(InnerSum(x, y, i, j, n - 1), Mul(El(x, i, n), El(y, n, j)))
MMul(x, y) == LET g(i, j) == InnerSum(x, y, i, j, x.c) IN Build(x.r, y.c, g)
MapM(g(_), x) == LET h(i, j) == g(El(x, i, j)) IN Build(x.r, x.c, h)
RECURSIVE RowSum(_, _, _, _)
RowSum(x, p, i, n) == IF n = 0 THEN 0 ELSE Add(RowSum(x, p, i, n - 1), Mul(El(x, i, n), p[n]))
MVec(x, p) == [i \in 1..x.r |-> RowSum(x, p, i, x.c)]
Trans(x) == LET g(i, j) == El(x, j, i) IN Build(x.c, x.r, g)
\* the matrix without row p and column q
MinorM(x, p, q) == LET g(i, j) == El(x, IF i < p THEN i ELSE i + 1, IF j < q THEN j ELSE j + 1) IN Build(x.r - 1, x.c - 1, g)

\* determinants of matrices of whole numbers are computed in whole numbers, others in fixed point
IsWhole(m) == \A n \in 1..(m.r * m.c) : m.v[n] % U = 0
RECURSIVE DetInt(_), CofInt(_, _)
CofInt(m, j) == IF j = 0 THEN 0 ELSE
                CofInt(m, j - 1) + (IF El(m, 1, j) = 0 THEN 0 ELSE (IF j % 2 = 1 THEN 1 ELSE -1) * (El(m, 1, j) \div U) * DetInt(MinorM(m, 1, j)))
DetInt(m) == IF m.r = 1 THEN m.v[1] \div U ELSE CofInt(m, m.c)
DetFix(m) == Det(m.v, m.r)
\* the adjugate, in whole numbers or in fixed point
AdjInt(m) == IF m.r = 1 THEN [r |-> 1, c |-> 1, v |-> <<1>>]
             ELSE LET g(i, j) == (IF (i + j) % 2 = 0 THEN 1 ELSE -1) * DetInt(MinorM(m, j, i)) IN Build(m.r, m.r, g)
AdjFix(m) == IF m.r = 1 THEN [r |-> 1, c |-> 1, v |-> <<U>>]
             ELSE LET g(i, j) == (IF (i + j) % 2 = 0 THEN 1 ELSE -1) * DetFix(MinorM(m, j, i)) IN Build(m.r, m.r, g)
Adjugate(m) == IF ~Square(m) THEN m
               ELSE IF IsWhole(m) THEN LET a == AdjInt(m) h(x) == Sat(x * U) IN MapM(h, a) ELSE AdjFix(m)
Inverse(m) ==
  IF ~Square(m) THEN m
  ELSE IF IsWhole(m) THEN LET d == DetInt(m) a == AdjInt(m) g(x) == MulDiv(x, U, d) IN IF d = 0 THEN m ELSE MapM(g, a)
  ELSE LET d == DetFix(m) a == AdjFix(m) g(x) == Div(x, d) IN IF d = 0 THEN m ELSE MapM(g, a)
Resized(m, r, c, x) == LET g(i, j) == IF i <= m.r /\ j <= m.c THEN El(m, i, j) ELSE x IN Build(r, c, g)
Inserted(m, p) == IF Len(p) = m.r * m.c THEN [m EXCEPT !.v = p] ELSE m
\* quotient of whole numbers, towards 0
TruncDiv(x, y) == LET q == (Abs(x) \div U) \div (Abs(y) \div U) IN (IF (x < 0) = (y < 0) THEN q ELSE -q) * U

-----------------------------------------------------------------------------
\* operations that make a matrix / change the one in their first slot
Makers == {"new", "newd", "newi", "newsq", "newsqd", "newid", "copy", "plus", "minus", "times", "splus", "sminus", "stimes",
           "sdiv", "transpose", "adjoint", "invert"}
Changers == {"assign", "set", "pluseq", "minuseq", "timeseq", "fill", "insert", "resize"}
Zeros(n) == [i \in 1..n |-> 0]
MatErr(f, A, B, k) ==    \* A, B: the operand matrices in order
  CASE f \in {"get", "cget", "set"} -> IF k[1] < 0 \/ k[1] >= A.r \/ k[2] < 0 \/ k[2] >= A.c THEN "range" ELSE "none"
    [] f \in {"plus", "minus", "pluseq", "minuseq"} -> IF B.r < A.r \/ B.c < A.c THEN "range" ELSE "none"
    [] f \in {"times", "timeseq"} -> IF A.c > B.r THEN "range" ELSE "none"
    [] OTHER -> "none"
MatRes(kind, f, A, B, k, p) ==
  CASE f = "new"    -> [r |-> k[1], c |-> k[2], v |-> Zeros(k[1] * k[2])]
    [] f = "newsq"  -> [r |-> k[1], c |-> k[1], v |-> Zeros(k[1] * k[1])]
    [] f = "newd"   -> Inserted([r |-> k[1], c |-> k[2], v |-> Zeros(k[1] * k[2])], p)
    [] f = "newsqd" -> Inserted([r |-> k[1], c |-> k[1], v |-> Zeros(k[1] * k[1])], p)
    [] f = "newi"   -> [r |-> k[1], c |-> k[2], v |-> [i \in 1..(k[1] * k[2]) |-> p[1]]]
    [] f = "newid"  -> Ident(k[1])
    [] f = "copy"   -> A
    [] f = "assign" -> B
    [] f \in {"plus", "pluseq"}   -> MAdd(A, B)
    [] f \in {"minus", "minuseq"} -> MSub(A, B)
    [] f \in {"times", "timeseq"} -> MMul(A, B)
    [] f = "splus"  -> LET g(x) == Add(x, p[1]) IN MapM(g, A)
    [] f = "sminus" -> LET g(x) == Sub(x, p[1]) IN MapM(g, A)
    [] f = "stimes" -> LET g(x) == Mul(x, p[1]) IN MapM(g, A)
    [] f = "sdiv"   -> LET g(x) == IF kind = "mi" THEN TruncDiv(x, p[1]) ELSE Div(x, p[1]) IN MapM(g, A)
    [] f = "transpose" -> Trans(A)
    [] f = "adjoint"   -> Adjugate(A)
    [] f = "invert"    -> Inverse(A)
    [] f = "set"    -> [A EXCEPT !.v[k[1] * A.c + k[2] + 1] = p[1]]
    [] f = "fill"   -> LET g(x) == p[1] IN MapM(g, A)
    [] f = "insert" -> Inserted(A, p)
    [] f = "resize" -> Resized(A, k[1], k[2], IF Len(p) = 0 THEN 0 ELSE p[1])
\* sums of products carry a rounding error of single precision
MTol(x) == 2 + Abs(x) \div 500000
SameMat(o, m) == o.r = m.r /\ o.c = m.c /\ o.ok = 1 /\ Len(o.v) = m.r * m.c
                 /\ \A n \in 1..(m.r * m.c) : Abs(Sub(o.v[n], m.v[n])) <= MTol(m.v[n])
\* inverses in fixed point carry the error of the determinant
InvMat(x, o, m) ==
  IF ~Square(x) \/ IsWhole(x) THEN SameMat(o, m)
  ELSE LET d == Abs(DetFix(x)) IN
       o.r = m.r /\ o.c = m.c /\ o.ok = 1 /\ Len(o.v) = m.r * m.c
       /\ (d < 50000 \/ d >= Huge \/ (\E n \in 1..(m.r * m.c) : Abs(AdjFix(x).v[n]) >= Huge) \/ \A n \in 1..(m.r * m.c) : Abs(Sub(o.v[n], m.v[n])) <= MTol(m.v[n]) + MulDiv(Add(U, Abs(m.v[n])), 40 * x.r, d))
ExactMat(o, m) == o.r = m.r /\ o.c = m.c /\ o.ok = 1 /\ Len(o.v) = m.r * m.c /\ \A n \in 1..(m.r * m.c) : o.v[n] = m.v[n]
B01(b) == IF b THEN 1 ELSE 0
\* integer and real results of queries
MatQuery(f, A, B, k) ==
  CASE f = "eq" -> LET q == B01(A.r = B.r /\ A.c = B.c /\ \A n \in 1..(A.r * A.c) : A.v[n] = B.v[n]) IN <<q, q>>
    [] f = "shape" -> <<A.r, A.c, A.r * A.c>>
    [] f = "rownull" -> <<B01(k[1] < A.r /\ \A j \in 1..A.c : El(A, k[1] + 1, j) = 0)>>
    [] f = "colnull" -> <<B01(k[1] < A.c /\ \A i \in 1..A.r : El(A, i, k[1] + 1) = 0)>>
    [] f = "roweq" -> <<B01(k[1] < A.r /\ k[2] < A.r /\ \A j \in 1..A.c : El(A, k[1] + 1, j) = El(A, k[2] + 1, j))>>
    [] f = "coleq" -> <<B01(k[1] < A.c /\ k[2] < A.c /\ \A i \in 1..A.r : El(A, i, k[1] + 1) = El(A, i, k[2] + 1))>>
=============================================================================
