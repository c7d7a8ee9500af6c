------------------------------ MODULE MC_Gamma -------------------------------
(* Part lists under add, remove, replace and assignment: the machine keeps
   two ordered lists of parts per curve; a second curve is a copy that must
   stay independent.  Every list reachable in a few steps is evaluated on a
   grid and compared with the definition of the curve.                       *)
EXTENDS Gamma, FiniteSets, TLC
CONSTANTS Steps
VARIABLES f, i, copy, n
mv == <<f, i, copy, n>>
Parts == <<UserPart(1, 250000), UserPart(3, 600000), UserPart(0, 400000), UserPart(4, U), UserPart(2, 250000), UserPart(6, 900000)>>
Ids == 1..Len(Parts)
Of(l) == [k \in 1..Len(l) |-> Parts[l[k]]]
Sorted(l) == \A a \in 1..(Len(l) - 1) : Parts[l[a]].bo <= Parts[l[a + 1]].bo
\* sorting keeps the order of equal borders
Insert(l, x) == LET k == Cardinality({a \in 1..Len(l) : Parts[l[a]].bo <= Parts[x].bo}) IN SubSeq(l, 1, k) \o <<x>> \o SubSeq(l, k + 1, Len(l))
RECURSIVE Sort(_)
Sort(l) == IF l = <<>> THEN <<>> ELSE Insert(Sort(SubSeq(l, 1, Len(l) - 1)), l[Len(l)])
Drop(l, k) == IF k < Len(l) THEN SubSeq(l, 1, k) \o SubSeq(l, k + 2, Len(l)) ELSE l
Lists == {<<>>, <<4, 1>>, <<2, 3, 1>>, <<5, 1, 2>>}
Init == f = <<>> /\ i = <<>> /\ copy = <<>> /\ n = 0
Next == /\ n < Steps /\ n' = n + 1
        /\ \/ \E x \in Ids : Len(f) < 4 /\ f' = Insert(f, x) /\ UNCHANGED <<i, copy>>
           \/ \E x \in Ids : Len(i) < 2 /\ i' = Insert(i, x) /\ UNCHANGED <<f, copy>>
           \/ \E k \in 0..4 : f' = Drop(f, k) /\ UNCHANGED <<i, copy>>
           \/ \E k \in 0..2 : i' = Drop(i, k) /\ UNCHANGED <<f, copy>>
           \/ \E l \in Lists : f' = Sort(l) /\ UNCHANGED <<i, copy>>
           \/ copy' = f /\ UNCHANGED <<f, i>>
           \/ f' = copy /\ UNCHANGED <<i, copy>>
Spec == Init /\ [][Next]_mv
Grid == {k * 50000 : k \in -1..22} \cup {249999, 250001, 599999, 600001, 400000}
Ordered == Sorted(f) /\ Sorted(i) /\ Sorted(copy)
\* the part that applies: no usable part with a smaller border applies, and none applies only if all borders are below
First == \A x \in Grid :
  LET u == Usable(Of(f), x) IN
  IF u = {} THEN Curve(Of(f), x) = x /\ \A a \in 1..Len(f) : Parts[f[a]].k # "none" => Parts[f[a]].bo < x
  ELSE \E a \in 1..Len(f) : /\ Parts[f[a]].k # "none" /\ x <= Parts[f[a]].bo /\ Curve(Of(f), x) = PartVal(Parts[f[a]], x)
                            /\ \A b \in 1..Len(f) : (Parts[f[b]].k # "none" /\ x <= Parts[f[b]].bo) => Parts[f[a]].bo <= Parts[f[b]].bo
\* unusable parts make no difference
Skip == \A x \in Grid : LET g == SelectSeq(f, LAMBDA a : Parts[a].k # "none") IN Curve(Of(f), x) = Curve(Of(g), x)
\* removing is the inverse of inserting
InsDrop == \A x \in Ids : \E k \in 0..Len(f) : Drop(Insert(f, x), k) = f
\* the order of insertion only matters among equal borders
Confluent == \A x, y \in Ids : Parts[x].bo # Parts[y].bo => Insert(Insert(f, x), y) = Insert(Insert(f, y), x)
CopyApart == [][ \/ copy' = copy \/ (copy' = f /\ f' = f) ]_mv
=============================================================================
