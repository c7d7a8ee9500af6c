----------------------------- MODULE ColorMagic -----------------------------
(* The library as a state machine.

   State: color objects held in slots, color-space definitions, white points,
   gamma curves and their parts, and matrices.  A command is a record
     op, f   operation and its variant (method name, target type, ...)
     s       slots: result slot(s) first for operations that make objects
     k       whole number arguments
     p, pb   real arguments: in micro and as IEEE bit patterns
     ch      characters of a text argument
   Err(e) is the error it must raise in the current state, Val(e, L) are the
   colors it must produce from operands L.                                   *)
EXTENDS Adapt, Tables, Matrices, FiniteSets

VARIABLES
  sl,   \* slot -> [id, t, bs, c, b, a, ab, d]: object identity, type, plain base object?, components, alpha, definition
  df,   \* definition -> [w, g, prim, pb, m, im, mb, imb, wt, wb]
  wp,   \* white point -> [v, b]
  gm,   \* gamma curve -> [f, i, fid, iid]: parts and their identities
  pt,   \* gamma part -> Part record with origin o
  mt    \* matrix -> [k, r, c, v]

NoObj == [id |-> 0, t |-> "", bs |-> 0, c |-> <<>>, b |-> <<>>, a |-> 0, ab |-> 0, d |-> 0]
Slots == 1..64
\* w selects a disturbance of linear light, see Wobble
\* q: error of the numeric parameters in units in the last place
Color(t, c, a) == [t |-> t, c |-> c, a |-> a, w |-> 0, q |-> 0]
Col(s) == Color(sl[s].t, sl[s].c, sl[s].a)
\* definition d as the conversions see it
Dv(d) == LET x == df[d] g == gm[x.g]
         IN  [m |-> x.m, im |-> x.im, wt |-> <<x.wt[1], x.wt[2], x.wt[3]>>, xy |-> <<x.wt[4], x.wt[5]>>, f |-> g.f, i |-> g.i, e |-> <<0, 0, 0>>]

-----------------------------------------------------------------------------
(* Hexadecimal codes                                                         *)
HexVal(ch) == CASE ch \in 48..57 -> ch - 48 [] ch \in 65..70 -> ch - 55 [] ch \in 97..102 -> ch - 87 [] OTHER -> -1
HexBody(ch) == IF Len(ch) > 0 /\ ch[1] = 35 THEN Tail(ch) ELSE ch
HexOK(ch) == LET b == HexBody(ch) IN Len(b) \in {6, 8} /\ \A i \in 1..Len(b) : HexVal(b[i]) >= 0
\* red, green, blue, alpha bytes
HexBytes(ch) == LET b == HexBody(ch)
                    y(i) == 16 * HexVal(b[i]) + HexVal(b[i + 1])
                IN  IF Len(b) = 8 THEN <<y(3), y(5), y(7), y(1)>> ELSE <<y(1), y(3), y(5), 255>>
\* from the two halves of the integer
IntBytes(h, l) == <<h % 256, l \div 256, l % 256, h \div 256>>
ByteColor(b) == [t |-> "RGB_TRUE", c |-> <<b[1] * U, b[2] * U, b[3] * U>>, a |-> MulDiv(b[4] * U, 1, 255)]

-----------------------------------------------------------------------------
(* Operands and errors                                                       *)
Operands(e) ==
  CASE e.op \in {"blend", "pd", "add", "mix", "sub", "plus"} -> <<e.s[2], e.s[3]>>
    [] e.op \in {"conv", "copy", "base", "adj", "adapt"} -> <<e.s[2]>>
    [] e.op = "avg" -> Tail(e.s)
    [] e.op = "comb" -> <<e.s[1]>>
    [] e.op \in {"new", "hexs", "hexi", "named"} -> <<>>
    [] OTHER -> e.s
InUnit(b) == b # NaNBits /\ Ord(b) >= 0 /\ Ord(b) <= OrdOf(1)
WeightCount(e) == IF e.k[1] = 2 THEN 0 ELSE IF e.op = "add" THEN 2 ELSE 1
ComboErr(e) ==
  CASE e.f = "combination" -> IF e.k[1] < 2 \/ e.k[1] > 360 THEN "invalid" ELSE "none"
    [] e.f \in {"analogous", "split"} -> IF Ord(e.pb[1]) = 0 \/ e.p[1] > 120 * U THEN "invalid" ELSE "none"
    [] e.f = "monochromatic" ->
         IF ~InUnit(e.pb[1]) \/ e.k[2] <= 0 THEN "invalid"
         ELSE IF e.k[2] > 1 /\ e.k[1] \notin 0..2 THEN "invalid" ELSE "none"
    [] OTHER -> "none"
MatA(e) == IF e.f \in Makers THEN (IF Len(e.s) > 1 THEN mt[e.s[2]] ELSE [r |-> 0, c |-> 0, v |-> <<>>]) ELSE mt[e.s[1]]
MatB(e) == IF e.f \in Makers THEN (IF Len(e.s) > 2 THEN mt[e.s[3]] ELSE MatA(e)) ELSE IF Len(e.s) > 1 THEN mt[e.s[2]] ELSE MatA(e)
Err(e) ==
  CASE e.op \in {"blend", "pd"} ->
         IF e.s[2] = 0 \/ e.s[3] = 0 THEN "invalid" ELSE IF sl[e.s[2]].d # sl[e.s[3]].d THEN "invalid" ELSE "none"
    [] e.op = "base" -> IF sl[e.s[2]].t # e.f THEN "invalid" ELSE "none"
    [] e.op = "plus" -> IF sl[e.s[2]].t # sl[e.s[3]].t THEN "invalid" ELSE "none"
    [] e.op \in {"get", "gset"} -> IF e.k[1] < 0 \/ e.k[1] >= NC(sl[e.s[1]].t) THEN "range" ELSE "none"
    [] e.op = "hexs" -> IF HexOK(e.ch) THEN "none" ELSE "invalid"
    [] e.op \in {"add", "mix", "sub"} -> IF \A i \in 1..WeightCount(e) : InUnit(e.pb[i]) THEN "none" ELSE "invalid"
    [] e.op = "avg" -> IF Len(e.s) = 1 THEN "invalid" ELSE "none"
    [] e.op = "comb" -> ComboErr(e)
    [] e.op \in {"mf", "mi", "md"} -> MatErr(e.f, MatA(e), MatB(e), e.k)
    [] OTHER -> "none"

(* Single precision XYZ values determine linear light to a few 10^-7 only; D
   with one of these errors describes the same conversion.                   *)
Wobbles == <<<<-3, -3, -3>>, <<3, 3, 3>>, <<-10, 0, 0>>, <<10, 0, 0>>, <<0, -10, 0>>, <<0, 10, 0>>, <<0, 0, -10>>, <<0, 0, 10>>, <<0, 0, 0>>>>
Wobble(D, w) == IF w = 0 THEN D ELSE [D EXCEPT !.e = Wobbles[w]]

-----------------------------------------------------------------------------
(* Values                                                                    *)
Flag(e, i) == e.k[1] = 2 \/ e.k[i] # 0
Inc(e) == e.k[1] = 1
Off(p, q) == IF q = 0 \/ ~IsNum(p) THEN p ELSE Add(p, q * (1 + Abs(p) \div 4000000))
W(e, i, default, q) == IF e.k[1] = 2 THEN default ELSE Off(e.p[i], q)
Opt(e, i, default, q) == IF Len(e.p) >= i THEN Off(e.p[i], q) ELSE default
\* color positions a combination stands at, for the j-th result (from 0)
Val(e, L, D0, E0) ==   \* D: definition of the first operand, E: that of the result (adaptation) or the second operand
  LET D == Wobble(D0, L[1].w) E == Wobble(E0, L[1].w) IN
  CASE e.op = "conv" -> [t |-> e.f, c |-> Conv(L[1].t, L[1].c, e.f, D), a |-> L[1].a]
    [] e.op = "blend" ->
         IF e.f \in HcyModes THEN HcyBlend(e.f, L[1], L[2], D)
         ELSE SepBlend(e.f, IF e.f = "custom" THEN e.k[3] ELSE 0, Flag(e, 1), Flag(e, 2), L[1], L[2], D)
    [] e.op = "pd" -> PdBlend(e.f, L[1], L[2], D)
    [] e.op = "add" -> AddOp(W(e, 1, U, L[1].q), W(e, 2, U, L[1].q), Inc(e), L[1], L[2], D)
    [] e.op = "mix" -> MixOp(W(e, 1, U \div 2, L[1].q), Inc(e), L[1], L[2], D)
    [] e.op = "sub" -> SubOp(W(e, 1, U, L[1].q), Inc(e), L[1], L[2], D)
    [] e.op = "avg" -> AvgOp(Inc(e), L)
    [] e.op \in {"adj", "adjr"} -> AdjustOp(e.f, Off(e.p[1], L[1].q), L[1], D)
    [] e.op = "adapt" ->
         AdaptOp(e.f, <<Opt(e, 1, U, L[1].q), Opt(e, 2, 100 * U, L[1].q), Opt(e, 3, 100 * U, L[1].q)>>, L[1], D, E)
\* distances
DistVal(e, L, D0, E0) ==
  LET D == Wobble(D0, L[1].w) E == Wobble(E0, L[1].w)
      lab == e.f \in {"cie76", "cie94", "cie00", "cie00_published", "cmc"}
      \* the darkest colors have no chromaticity
      dim(x, M) == lab /\ LET c == LabOf(x, M) IN \E i \in 1..3 : ~IsNum(c[i])
  IN
  CASE dim(L[1], D) \/ dim(L[2], E) -> Free
    [] e.f \in {"euclid", "euclid2"} ->
         EuclidIn(IF Len(e.k) > 0 /\ AllTypes[e.k[1] + 1] = "CIELUV" THEN "CIELUV" ELSE "RGB_DEEP", L[1], L[2], D, E)
    [] e.f = "weighted" -> Weighted(L[1], L[2], D, E)
    [] e.f = "cie76" -> Cie76(L[1], L[2], D, E)
    [] e.f = "cie94" -> Cie94(IF Len(e.p) = 5 THEN e.p ELSE <<U, 45000, 15000, U, U>>, L[1], L[2], D, E)
    [] e.f = "cie00" -> Cie00(IF Len(e.p) = 5 THEN e.p ELSE <<U, 45000, 15000, U, U>>, L[1], L[2], D, E)
    [] e.f = "cie00_published" -> Cie00Published(<<U, 45000, 15000, U, U>>, L[1], L[2], D, E)
    [] e.f = "cmc" -> Cmc(IF Len(e.p) = 2 THEN e.p[1] ELSE 2 * U, IF Len(e.p) = 2 THEN e.p[2] ELSE U, L[1], L[2], D, E)
=============================================================================
