------------------------------ MODULE Conform ------------------------------
(* When does a recorded call agree with the specification?  Results of single
   precision arithmetic agree with a value of the model if they are as close
   as the conditioning of the computation allows: close to the model's value
   for the recorded operands, or for operands a few units in the last place
   away (this also settles thresholds, sector borders and roundings).        *)
EXTENDS ColorMagic, FiniteSetsExt, TLC

CircDiff(x, y) == LET d == Abs(x - y) % (360 * U) IN Min(d, 360 * U - d)
\* component i of type t: observed o, expected x
CloseC(t, i, o, x, tol) ==
  IF x = Free THEN TRUE
  ELSE IF ~IsNum(o) \/ ~IsNum(x) THEN FALSE
  ELSE IF i = Hue(t) THEN CircDiff(o, x) <= tol \/ (o = 359 * U /\ x <= tol)   \* 360 is stored as 359
  ELSE Abs(Sub(o, x)) <= tol
Width(x, y) == IF IsNum(x) /\ IsNum(y) THEN Abs(Sub(x, y)) ELSE 0
Cap(t, i) == IF t \in TrueTypes THEN 0 ELSE IF i = Hue(t) THEN 180 * U ELSE (ObjHi(t) - ObjLo(t)) * (U \div 50)
\* alpha: exact, or as whole 8 bit step when a true color type takes part
AlphaClose(tru, o, x, w) == Abs(o - x) <= 6 + w \/ (tru /\ \E d \in {-2, 0, 2} : Abs(o - MulDiv(Byte(x + d), 1, 255)) <= 6 + w)

CloseTo(o, X, tol, atol, tru) ==
  /\ o.t = X.t /\ Len(o.c) = NC(X.t)
  /\ \A i \in 1..NC(X.t) : CloseC(X.t, i, o.c[i], X.c[i], tol[i])
  /\ AlphaClose(tru, o.a, X.a, atol)

\* the operands after an error of a few units in the last place
Nudge(x, i, d) ==   \* i = NC + 1: alpha
  LET n == NC(x.t) IN
  IF i > n THEN [x EXCEPT !.a = Clamp(@ + d, 0, U)]
  \* hue and saturation are those of an RGB value known to a micro
  ELSE IF i = Hue(x.t) /\ x.t \in CylTypes THEN [x EXCEPT !.c[i] = Wrap(@ + d * (8 + Min(5 * U, Spread(15, Mul(x.c[2], x.c[3])))))]
  ELSE IF i = Hue(x.t) THEN [x EXCEPT !.c[i] = Wrap(@ + d * 8)]
  ELSE IF i = 2 /\ x.t \in {"HSI", "HSV", "HSL"} THEN [x EXCEPT !.c[i] = Clamp(@ + d * (2 + Min(20000, Spread(1, x.c[3]))), 0, U)]
  ELSE [x EXCEPT !.c[i] = Clamp(@ + d * (IF x.t \in TrueTypes THEN 300 ELSE 2 + (Abs(@) \div 4194304)), ObjLo(x.t) * U, Hi(x.t, i) * U)]
Nudged(L) == UNION {{[L EXCEPT ![j] = Nudge(L[j], i, d)] : i \in 1..(NC(L[j].t) + 1), d \in {-4, -1, 1, 4}} : j \in 1..Len(L)}
             \cup (IF \E j \in 1..Len(L) : L[j].t \in XyzTypes \/ L[j].w > 0 THEN {[L EXCEPT ![1].w = k] : k \in 1..8} ELSE {})
             \cup {[L EXCEPT ![1].q = d] : d \in {-1, 1}}

Dist(t, i, x, y) == IF ~(IsNum(x) /\ IsNum(y)) THEN 0 ELSE IF i = Hue(t) THEN CircDiff(x, y) ELSE Abs(Sub(x, y))
Plus3(tol, X, Y) ==   \* tolerance around a nudged value Y when X is the unperturbed one
  [i \in 1..NC(X.t) |-> Min(U * 1000, tol[i]) + Min(Dist(X.t, i, X.c[i], Y.c[i]), Cap(X.t, i))]
\* o agrees with F applied to (something indistinguishable from) L
AcceptIn(F(_), L, Ns, o, D, tru) ==
  LET X == F(L) tol == Tol(X.t, X.c, D)
  IN  \/ CloseTo(o, X, tol, 0, tru)
      \/ LET Ys == {F(M) : M \in Ns}
              \* each component agrees with one of the neighbours, or lies within their joint spread
              \* (8 bit components: between two of them)
              hull(i) == /\ X.t \in TrueTypes /\ IsNum(o.c[i]) /\ \A Y \in Ys : IsNum(Y.c[i])
                         /\ (Abs(o.c[i] - X.c[i]) <= 6 * U \/ Cardinality({Y.c[i] : Y \in Ys}) >= 3)
                         /\ \E Y \in Ys : Y.c[i] <= o.c[i]
                         /\ \E Y \in Ys : Y.c[i] >= o.c[i]
              \* components that depend on the operand so steeply that the neighbours spread out: anywhere among them
              steep(i) == /\ X.t \notin TrueTypes /\ IsNum(o.c[i]) /\ \A Y \in Ys : IsNum(Y.c[i])
                          /\ Cardinality({Y.c[i] \div Max(1, Cap(X.t, i) \div 10) : Y \in Ys}) >= 3
                          /\ \/ i = Hue(X.t)
                             \/ (\E Y \in Ys : Y.c[i] <= o.c[i]) /\ (\E Y \in Ys : Y.c[i] >= o.c[i])
              between(i) == \E Y \in Ys : /\ X.t \notin TrueTypes /\ IsNum(o.c[i]) /\ IsNum(Y.c[i]) /\ IsNum(X.c[i])
                                           /\ Dist(X.t, i, X.c[i], Y.c[i]) <= 10 * Cap(X.t, i)
                                           /\ Dist(X.t, i, X.c[i], o.c[i]) <= Dist(X.t, i, X.c[i], Y.c[i])
                                           /\ Dist(X.t, i, Y.c[i], o.c[i]) <= Dist(X.t, i, X.c[i], Y.c[i])
              sum(i) == FoldSet(LAMBDA Y, s : Min(Huge, s + Min(Dist(X.t, i, X.c[i], Y.c[i]), Cap(X.t, i))), Min(1000 * U, tol[i]), Ys)
          IN  /\ o.t = X.t /\ Len(o.c) = NC(X.t)
              /\ AlphaClose(tru, o.a, X.a, 0) \/ \E Y \in Ys : AlphaClose(tru, o.a, Y.a, Abs(X.a - Y.a))
              /\ \A i \in 1..NC(X.t) : \/ hull(i) \/ between(i) \/ steep(i) \/ \E Y \in Ys : CloseC(X.t, i, o.c[i], Y.c[i], Plus3(Tol(Y.t, Y.c, D), X, Y)[i])
                                       \/ CloseC(X.t, i, o.c[i], X.c[i], Min(sum(i), Max(tol[i], 3 * Cap(X.t, i))))
(* Last resort: what the computation yields under random rounding errors.     *)
JitC(x) == [x EXCEPT !.c = [i \in 1..Len(@) |-> Jit(@[i])], !.a = IF @ = U THEN U ELSE Jit(@)]
NoisyVals(F(_), L) ==
  LET S == {TLCEval(IF SetNoise(k) THEN F([j \in 1..Len(L) |-> JitC(L[j])]) ELSE 0) : k \in 1..40}
  IN  IF S # {} /\ SetNoise(0) THEN S ELSE S
Lowest(S) == CHOOSE x \in S : \A y \in S : x <= y
Highest(S) == CHOOSE x \in S : \A y \in S : x >= y
\* observed v agrees with the sampled values S, each known up to tol
Among(v, S, tol) ==
  \/ \E x \in S : ~IsNum(x)
  \/ IsNum(v) /\ LET lo == Lowest(S) hi == Highest(S) w == Sub(hi, lo) \div 2 IN v >= Sub(Sub(lo, w), tol) /\ v <= Add(Add(hi, w), tol)
AcceptNoisy(F(_), L, o, D, tru) ==
  LET X == F(L) tol == Tol(X.t, X.c, D)
      Ys == NoisyVals(F, L)
      comp(i) == LET S == {Y.c[i] : Y \in Ys} t == X.t z == Min(tol[i], Cap(t, i) + 300) IN
                 IF i # Hue(t) THEN Among(o.c[i], S, z)
                 ELSE \/ Among(o.c[i], S, z) \/ Among(Sub(o.c[i], 360 * U), {Sub(x, IF x > 180 * U THEN 360 * U ELSE 0) : x \in S}, z)
                      \/ Among(o.c[i], {Sub(x, IF x > 180 * U THEN 360 * U ELSE 0) : x \in S}, z)
                      \/ (o.c[i] = 359 * U /\ Among(o.c[i], {Min(x, 359 * U) : x \in S}, z))
  IN  /\ o.t = X.t /\ Len(o.c) = NC(X.t)
      /\ AlphaClose(tru, o.a, X.a, 0) \/ \E Y \in Ys : AlphaClose(tru, o.a, Y.a, Abs(X.a - Y.a))
      /\ \A i \in 1..NC(X.t) : comp(i)
Accept(F(_), L, o, D, tru) == AcceptIn(F, L, Nudged(L), o, D, tru) \/ AcceptNoisy(F, L, o, D, tru)
AcceptQuick(F(_), L, o, D, tru) == AcceptIn(F, L, Nudged(L), o, D, tru)
AcceptNum(F(_), L, o, rel, abs) ==
  LET X == F(L) w(x) == abs + (IF IsNum(x) THEN MulDiv(Abs(x), 1, rel) ELSE 0)
      ok(Y) == IF X = Free \/ Y = Free THEN TRUE
               ELSE IsNum(o) /\ IsNum(Y) /\ Abs(Sub(o, Y)) <= w(Y) + Min(Width(X, Y), Max(50000, Abs(X) \div 20))
      spread == FoldSet(LAMBDA Y, s : Min(Huge, s + Width(X, Y)), 0, {F(M) : M \in Nudged(L)})
  IN  ok(X) \/ (\E M \in Nudged(L) : ok(F(M)))
      \/ (IsNum(o) /\ IsNum(X) /\ Abs(Sub(o, X)) <= w(X) + Min(spread, Max(50000, Abs(X) \div 20)))
      \/ Among(o, NoisyVals(F, L), w(X))
AnyTrue(ts) == ts \cap TrueTypes # {}

-----------------------------------------------------------------------------
(* Exact checks                                                              *)
Post(e, s) == e.post[CHOOSE i \in 1..Len(e.post) : e.post[i].sl = s]
HasPost(e, s) == \E i \in 1..Len(e.post) : e.post[i].sl = s
SameVal(o, x) == o.t = x.t /\ Len(o.b) = Len(x.b) /\ \A i \in 1..Len(o.b) : Ord(o.b[i]) = Ord(x.b[i])
\* integer types hand alpha over in bytes: the way there and back may round
AlphaSame(t, p, q) == Ord(p) = Ord(q) \/ (t \in TrueTypes /\ p > 0 /\ q > 0 /\ Abs(p - q) <= 1)
SameObj(o, x) == SameVal(o, x) /\ Ord(o.ab) = Ord(x.ab) /\ o.d = x.d /\ o.bs = x.bs /\ o.id = x.id
Fresh(o) == \A s \in Slots : sl[s].id # o.id
If(b, name) == IF b THEN {} ELSE {name}

BitsIn(pb, ob, lo, hi) == IF pb = NaNBits THEN Ord(ob) >= lo /\ Ord(ob) <= hi ELSE Ord(ob) = ClampOrd(pb, lo, hi)
StoredOK(t, i, p, pb, o, ob) ==
  IF i = 1 /\ t \in CylTypes THEN
    /\ Ord(ob) >= 0 /\ Ord(ob) <= OrdOf(359)
    /\ IF ~IsNum(p) \/ Abs(p) >= Huge THEN TRUE
       ELSE IF Ord(pb) >= 0 /\ Ord(pb) < OrdOf(360) THEN Ord(ob) = Min(Ord(pb), OrdOf(359))
       ELSE LET x == Wrap(p) IN Abs(o - Min(x, 359 * U)) <= 150 \/ (x <= 150 /\ o = 359 * U) \/ (x >= 360 * U - 150 /\ o <= 150)
  ELSE BitsIn(pb, ob, OrdOf(Lo(t, i)), OrdOf(Hi(t, i)))
\* alpha given on the scale of the type's accessors
AlphaStoredOK(t, p, pb, o, ob) ==
  IF t \notin TrueTypes THEN BitsIn(pb, ob, 0, OrdOf(1))
  ELSE IF pb = NaNBits THEN Ord(ob) >= 0 /\ Ord(ob) <= OrdOf(1)
  ELSE IF Ord(pb) <= 0 THEN Ord(ob) = 0 ELSE IF Ord(pb) >= OrdOf(255) THEN Ord(ob) = OrdOf(1)
  ELSE Abs(o - MulDiv(p, 1, 255)) <= 1

NewBad(e, o) ==
  LET t == e.f n == NC(t) grey == Len(e.k) > 1 /\ e.k[2] = 1
      pi(i) == IF grey THEN 1 ELSE i
      ai == IF grey THEN 2 ELSE n + 1
  IN  If(o.t = t /\ Len(o.c) = n, "type") \cup If(o.d = e.k[1], "def") \cup If(Fresh(o), "identity")
      \cup If(o.t = t /\ Len(o.c) = n /\ \A i \in 1..n : StoredOK(t, i, e.p[pi(i)], e.pb[pi(i)], o.c[i], o.b[i]), "value")
      \cup If(AlphaStoredOK(t, e.p[ai], e.pb[ai], o.a, o.ab), "alpha")
\* object o is old except for component i
OnlyComp(o, x, i) == /\ o.t = x.t /\ o.d = x.d /\ o.id = x.id /\ Ord(o.ab) = Ord(x.ab) /\ Len(o.b) = Len(x.b)
                     /\ \A j \in 1..Len(x.b) : j # i => Ord(o.b[j]) = Ord(x.b[j])

Rel(x) == 3 + Abs(x) \div 2000000
-----------------------------------------------------------------------------
(* Definitions                                                               *)
DefMatOK(r) ==   \* r.m maps white to r.wt and primaries to their chromaticities, r.im is its inverse
  LET m == r.m im == r.im
      big == LET S == {Abs(m[i]) : i \in 1..9} \cup {U} IN CHOOSE x \in S : \A y \in S : y <= x
      ibig == LET S == {Abs(im[i]) : i \in 1..9} \cup {U} IN CHOOSE x \in S : \A y \in S : y <= x
      cond == MulDiv(big, ibig, U)
      tol == 30 + MulDiv(cond, 1, 100000)    \* in micro
      col(j) == <<m[j], m[j + 3], m[j + 6]>>
      pr(j) == <<r.prim[3 * j - 2], r.prim[3 * j - 1], r.prim[3 * j]>>
      par(j) == LET c == col(j) p == pr(j)
                IN  /\ Abs(Sub(Mul(c[1], p[2]), Mul(c[2], p[1]))) <= tol
                    /\ Abs(Sub(Mul(c[2], p[3]), Mul(c[3], p[2]))) <= tol
                    /\ Abs(Sub(Mul(c[1], p[3]), Mul(c[3], p[1]))) <= tol
      idn(i, j) == LET x == Dot(<<m[3 * i - 2], m[3 * i - 1], m[3 * i]>>, <<im[j], im[j + 3], im[j + 6]>>)
                   IN  Abs(x - (IF i = j THEN U ELSE 0)) <= tol
  IN  /\ Len(m) = 9 /\ Len(im) = 9 /\ \A i \in 1..9 : IsNum(m[i]) /\ IsNum(im[i])
      /\ \A i \in 1..3 : Abs(Sub(Add(Add(m[3 * i - 2], m[3 * i - 1]), m[3 * i]), r.wt[i])) <= tol
      /\ \A j \in 1..3 : par(j)
      /\ ibig >= 1000 * U \/ \A i \in 1..3 : \A j \in 1..3 : idn(i, j)   \* degenerate primaries have no inverse to speak of
PrimOK(r) == r.acc = r.pb /\ \A j \in {3, 6, 9} : Abs(r.prim[j] - (U - r.prim[j - 1] - r.prim[j - 2])) <= 2
SameDef(r, x) == r.w = x.w /\ r.g = x.g /\ r.pb = x.pb /\ r.mb = x.mb /\ r.imb = x.imb /\ r.wb = x.wb
ObsDef(e, d) == e.defs[CHOOSE i \in 1..Len(e.defs) : e.defs[i].d = d]
HasDef(e, d) == \E i \in 1..Len(e.defs) : e.defs[i].d = d
ObsGm(e, g) == e.gms[CHOOSE i \in 1..Len(e.gms) : e.gms[i].g = g]
HasGm(e, g) == \E i \in 1..Len(e.gms) : e.gms[i].g = g
ObsWp(e, w) == e.wps[CHOOSE i \in 1..Len(e.wps) : e.wps[i].w = w]
HasWp(e, w) == \E i \in 1..Len(e.wps) : e.wps[i].w = w
\* the view of a definition recorded by e
ObsDv(e, d, g) == LET x == ObsDef(e, d) IN [m |-> x.m, im |-> x.im, wt |-> <<x.wt[1], x.wt[2], x.wt[3]>>, xy |-> <<x.wt[4], x.wt[5]>>, f |-> g.f, i |-> g.i, e |-> <<0, 0, 0>>]

WpOK(v) == LET s == Add(Add(v[1], v[2]), v[3])
           IN  /\ Abs(v[4] + v[5] + v[6] - U) <= 3
               /\ \A i \in 1..3 : Abs(Sub(MulDiv(v[i], U, s), v[i + 3])) <= 120
Near6(v, x, tol) == \A i \in 1..Len(x) : Abs(Sub(v[i], x[i])) <= tol

-----------------------------------------------------------------------------
(* Gamma curves                                                              *)
Count(q, x) == Cardinality({i \in 1..Len(q) : q[i] = x})
SameBag(p, q) == Len(p) = Len(q) /\ \A i \in 1..Len(p) : Count(p, p[i]) = Count(q, p[i])
(* part 0 is a missing part (null): it has no border and is never used *)
Sorted(ids) == LET q == SelectSeq(ids, LAMBDA x : x # 0) IN \A i \in 1..(Len(q) - 1) : pt[q[i]].bo <= pt[q[i + 1]].bo
Known(ids) == \A i \in 1..Len(ids) : ids[i] \in DOMAIN pt
PartsOf(ids) == CASE Len(ids) = 0 -> <<>> [] Len(ids) = 1 -> <<pt[ids[1]]>> [] Len(ids) = 2 -> <<pt[ids[1]], pt[ids[2]]>>
                  [] Len(ids) = 3 -> <<pt[ids[1]], pt[ids[2]], pt[ids[3]]>> [] OTHER -> [i \in 1..Len(ids) |-> pt[ids[i]]]
\* a list that must hold exactly the given parts in order of their borders
ListOK(obs, want) == SameBag(obs, want) /\ (Known(want) => Sorted(obs))
From(q, n) == SubSeq(q, n, Len(q))
Without(q, n) == SubSeq(q, 1, n - 1) \o SubSeq(q, n + 1, Len(q))
GId(k) == IF k < 0 THEN df[-k].g ELSE k
\* expected identities of the parts of curve g after e: <<encoding, decoding>>
GmWant(e) ==
  LET g == IF e.op = "gmop" THEN GId(e.k[1]) ELSE 0 IN
  CASE e.op = "gm" /\ e.f = "empty" -> <<<<>>, <<>>>>
    [] e.op = "gm" /\ e.f = "list" -> <<SubSeq(e.k, 2, e.k[1] + 1), SubSeq(e.k, e.k[1] + 2, Len(e.k))>>
    [] e.op = "gm" /\ e.f = "copy" -> <<gm[e.k[1]].fid, gm[e.k[1]].iid>>
    [] e.f = "add"  -> <<Append(gm[g].fid, e.k[2]), gm[g].iid>>
    [] e.f = "iadd" -> <<gm[g].fid, Append(gm[g].iid, e.k[2])>>
    [] e.f = "set"  -> <<From(e.k, 2), gm[g].iid>>
    [] e.f = "iset" -> <<gm[g].fid, From(e.k, 2)>>
    [] e.f = "remove"  -> <<IF e.k[2] < Len(gm[g].fid) THEN Without(gm[g].fid, e.k[2] + 1) ELSE gm[g].fid, gm[g].iid>>
    [] e.f = "iremove" -> <<gm[g].fid, IF e.k[2] < Len(gm[g].iid) THEN Without(gm[g].iid, e.k[2] + 1) ELSE gm[g].iid>>
    [] e.f = "assign"  -> <<gm[e.k[2]].fid, gm[e.k[2]].iid>>
    [] OTHER -> <<gm[g].fid, gm[g].iid>>
CurveOK(parts, x, o) ==
  LET F(d) == Curve(parts, Sat(x + d))
      ok(y) == IF ~IsNum(y) THEN TRUE ELSE IsNum(o) /\ Abs(Sub(o, y)) <= 4 + Abs(y) \div 200000
  IN  ok(F(0)) \/ \E d \in {-2, 2} : ok(F(d)) \/ (IsNum(o) /\ ((o >= F(0) - 3 /\ o <= F(d) + 3) \/ (o <= F(0) + 3 /\ o >= F(d) - 3)) /\ Abs(F(d) - F(0)) < 20000)
PartCmp(x, y) ==   \* the comparison operators of two parts: equality is only determined for copies and for different functions or borders
  LET same == x.k = y.k /\ x.a = y.a /\ x.b = y.b
      eq == IF x.bo # y.bo \/ ~same THEN 0 ELSE IF x.o = y.o THEN 1 ELSE 2
      r == <<eq, IF eq = 2 THEN 2 ELSE 1 - eq, B01(x.bo < y.bo), B01(x.bo > y.bo), B01(x.bo <= y.bo), B01(x.bo >= y.bo)>>
  IN  r \o r
\* single precision determinants: relative to the size of the products
DetTol(A) == LET m == FoldSet(LAMBDA i, s : Max(s, Abs(A.v[i]) \div U + 1), 1, 1..Len(A.v))
             IN  20 + 5 * A.r * A.r + (IF A.r = 4 THEN 5 * m * m ELSE IF A.r = 5 THEN 10 * m * m * m ELSE 0)
=============================================================================
