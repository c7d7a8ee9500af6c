------------------------------ MODULE MC_Matrix ------------------------------
(* Linear algebra laws of the matrix operations, exhaustively for small
   matrices of small whole numbers.                                          *)
EXTENDS Matrices, FiniteSets
CONSTANTS Dim, Deep
VARIABLES v
Ints == IF Dim = 2 THEN {-7, -3, -2, -1, 0, 1, 2, 5} ELSE IF Deep THEN {-2, 0, 1} ELSE {-2, 1}
E == {x * U : x \in Ints}
Init == v \in [1..(Dim * Dim) -> E]
Next == UNCHANGED v
A == [r |-> Dim, c |-> Dim, v |-> v]
Bs == {[A EXCEPT !.v = [n \in 1..(Dim * Dim) |-> ((((n * k) % 5) - 2)) * U]] : k \in 1..3}
D == DetInt(A)
SameM(x, y) == x.r = y.r /\ x.c = y.c /\ \A n \in 1..(x.r * x.c) : x.v[n] = y.v[n]
Scal(m, k) == LET g(x) == x * k IN MapM(g, m)
Adj == SameM(MMul(A, Adjugate(A)), Scal(Ident(Dim), D)) /\ SameM(MMul(Adjugate(A), A), Scal(Ident(Dim), D))
Inv == D # 0 => LET p == MMul(A, Inverse(A)) IN \A n \in 1..(Dim * Dim) : Abs(p.v[n] - Ident(Dim).v[n]) <= 12
Singular == D = 0 => Inverse(A) = A
DetMul == \A B \in Bs : DetInt(MMul(A, B)) = D * DetInt(B)
DetT == DetInt(Trans(A)) = D
TransMul == \A B \in Bs : SameM(Trans(MMul(A, B)), MMul(Trans(B), Trans(A)))
TransTwice == SameM(Trans(Trans(A)), A)
Ring == \A B \in Bs : /\ SameM(MAdd(A, B), MAdd(B, A)) /\ SameM(MSub(MAdd(A, B), B), A)
                      /\ SameM(MMul(A, MAdd(B, A)), MAdd(MMul(A, B), MMul(A, A)))
Unity == SameM(MMul(A, Ident(Dim)), A) /\ SameM(MMul(Ident(Dim), A), A) /\ SameM(MMul(Ident(Dim), Ident(Dim)), Ident(Dim))
Assoc == \A B, C \in Bs : SameM(MMul(MMul(A, B), C), MMul(A, MMul(B, C)))
Apply == LET x == [i \in 1..Dim |-> i * U] IN MVec(A, x) = [i \in 1..Dim |-> MMul(A, [r |-> Dim, c |-> 1, v |-> x]).v[i]]
\* a row of zeros, equal rows: singular
Rank == /\ (\E i \in 1..Dim : \A j \in 1..Dim : El(A, i, j) = 0) => D = 0
        /\ (\E i, k \in 1..Dim : i # k /\ \A j \in 1..Dim : El(A, i, j) = El(A, k, j)) => D = 0
FixAgrees == DetFix(A) = D * U
Reshape == LET B == Resized(A, Dim + 1, Dim - 1, 7 * U) IN
  /\ B.r = Dim + 1 /\ B.c = Dim - 1 /\ Len(B.v) = (Dim + 1) * (Dim - 1)
  /\ \A i \in 1..(Dim + 1), j \in 1..(Dim - 1) : El(B, i, j) = IF i <= Dim THEN El(A, i, j) ELSE 7 * U
InsertLaw == Inserted(A, v) = A /\ Inserted(A, <<U>>) = (IF Dim = 1 THEN [A EXCEPT !.v = <<U>>] ELSE A)
Query == MatQuery("eq", A, A, <<>>) = <<1, 1>> /\ MatQuery("shape", A, A, <<>>) = <<Dim, Dim, Dim * Dim>>
=============================================================================
