------------------------------ MODULE MC_Layers ------------------------------
(* Stacks of layers: "over" is associative, "in" and "out" split a layer,
   and composing layer by layer never leaves the unit cube.  The state is a
   stack built by compositing one more layer with any operator.              *)
EXTENDS Blend
CONSTANTS Depth
VARIABLES acc, n, last
mv == <<acc, n, last>>
Layers == {[c |-> <<x, U - x, y>>, a |-> a] : x \in {0, 300000, U}, y \in {0, U}, a \in {0, 250000, 600000, U}}
Few == {[c |-> <<U, 0, 500000>>, a |-> U \div 2], [c |-> <<0, U, 200000>>, a |-> U], [c |-> <<100000, 900000, 0>>, a |-> 100000]}
Init == acc \in Layers /\ n = 0 /\ last = "-"
Next == n < Depth /\ \E o \in PdOps : \E x \in Few : acc' = PdDeep(o, x, acc) /\ n' = n + 1 /\ last' = o
Pre(r, i) == Mul(r.c[i], r.a)
SameRes(x, y) == Abs(x.a - y.a) <= 4 /\ \A i \in 1..3 : Abs(Pre(x, i) - Pre(y, i)) <= 8
UnitCube == acc.a \in 0..U /\ \A i \in 1..3 : acc.c[i] \in 0..U
Assoc == \A x, y \in Few : SameRes(PdDeep("over", x, PdDeep("over", y, acc)), PdDeep("over", PdDeep("over", x, y), acc))
Split == \A x \in Few : LET i == PdDeep("in", x, acc) o == PdDeep("out", x, acc)
                         IN  Abs(i.a + o.a - x.a) <= 4 /\ \A k \in 1..3 : Abs(Pre(i, k) + Pre(o, k) - Pre(x, k)) <= 8
EmptyIsEmpty == last = "clear" => acc.a = 0
Idem == SameRes(PdDeep("src", acc, acc), acc) /\ SameRes(PdDeep("dest", acc, acc), acc) /\ SameRes(PdDeep("atop", acc, acc), acc)
=============================================================================
