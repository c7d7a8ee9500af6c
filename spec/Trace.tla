-------------------------------- MODULE Trace --------------------------------
(* Checks one recorded history of the real library against ColorMagic: every
   recorded call must be a step of the state machine.  Calls that are not are
   reported as REJECT lines, with the properties they break; the check goes on
   from the recorded state.                                                  *)
EXTENDS Conform, Json, IOUtils

VARIABLES l,
          memo   \* operation -> arguments -> result, of the calls made so far
Log == ndJsonDeserialize(IOEnv.TRACE_LOG)
Prop == IOEnv.TRACE_PROP
vars == <<l, memo, sl, df, wp, gm, pt, mt>>

-----------------------------------------------------------------------------
(* Operations on single objects                                              *)
ConvBad(e) ==
  LET x == sl[e.s[2]] o == Post(e, e.s[1]) D == Dv(x.d) L == <<Col(e.s[2])>>
      tru == AnyTrue({x.t, e.f})
      F(M) == Val(e, M, D, D)
  IN  IF x.t = e.f THEN If(o.id = x.id, "identity")
      ELSE If(o.t = e.f /\ Len(o.c) = NC(e.f), "type") \cup If(Fresh(o), "identity") \cup If(o.d = x.d, "def")
           \cup If(AlphaClose(tru, o.a, x.a, 0), "alpha")
           \cup If(o.t = e.f /\ Accept(F, L, [o EXCEPT !.a = x.a], D, FALSE), "value")
           \* chromaticities are as certain as the tristimulus sum, even if luminance vanishes
           \cup (IF x.t = "XYZ" /\ e.f = "XYY" /\ Len(o.c) = 3
                 THEN LET w == XyzToXyy(x.c, D) sum == x.c[1] + x.c[2] + x.c[3]
                      IN  If(\A i \in 1..2 : IsNum(w[i]) => IsNum(o.c[i]) /\ Abs(Sub(o.c[i], Clamp(w[i], 0, 100 * U))) <= 10 + Spread(6, sum), "value")
                 ELSE {})
PlusBad(e) ==
  LET x == sl[e.s[2]] y == sl[e.s[3]] o == Post(e, e.s[1]) t == x.t
  IN  If(o.t = t /\ Len(o.c) = NC(t), "type") \cup If(o.d = x.d, "def") \cup If(AlphaSame(x.t, o.ab, x.ab), "alpha") \cup If(Fresh(o), "identity")
      \cup If(Len(o.c) = NC(t) /\ \A i \in 1..NC(t) : LET v == Clamp(Add(x.c[i], y.c[i]), ObjLo(t) * U, ObjHi(t) * U) IN Abs(Sub(o.c[i], v)) <= Rel(v), "value")
\* the object in slot s changes to component values v(i), within tolerance
Changed(e, o, x, v(_), ok(_, _)) ==
  If(o.t = x.t /\ o.d = x.d /\ o.id = x.id /\ o.bs = x.bs /\ Len(o.c) = Len(x.c), "type") \cup If(AlphaSame(x.t, o.ab, x.ab), "alpha")
  \cup If(Len(o.c) = Len(x.c) /\ \A i \in 1..Len(x.c) : ok(o.c[i], v(i)), "value")
OneBad(e) ==
  LET s == e.s[1] x == sl[s] o == Post(e, s) t == x.t
      close(p, q) == IsNum(p) /\ Abs(Sub(p, q)) <= Rel(q)
      same(i) == x.c[i]
      exact(p, q) == p = q
  IN
  CASE e.op = "setc" -> LET i == e.k[1] + 1 IN
         If(OnlyComp(o, x, i), "frame") \cup If(Len(o.c) >= i /\ StoredOK(t, i, e.p[1], e.pb[1], o.c[i], o.b[i]), "value")
    [] e.op = "gset" -> LET i == e.k[1] + 1
                            hi == IF Len(e.p) = 3 THEN Ord(e.pb[2]) ELSE OrdOf(ObjHi(t))
                            lo == IF Len(e.p) = 3 THEN Ord(e.pb[3]) ELSE OrdOf(ObjLo(t))
                        IN  If(OnlyComp(o, x, i), "frame") \cup If(BitsIn(e.pb[1], o.b[i], lo, hi), "value")
    [] e.op = "alpha" -> If(SameVal(o, x) /\ o.d = x.d /\ o.id = x.id, "frame") \cup If(AlphaStoredOK(t, e.p[1], e.pb[1], o.a, o.ab), "alpha")
    [] e.op = "amul" -> LET v(i) == Mul(x.c[i], x.a)
                            \* alpha is known to half a micro only
                            ok(p, q) == IsNum(p) /\ Abs(Sub(p, q)) <= Rel(q) + (IF x.a = 0 THEN 360 ELSE Min(360, MulDiv(Abs(q), 1, x.a)))
                        IN  Changed(e, o, x, v, ok)
    [] e.op = "adiv" -> IF x.a = 0 /\ Ord(x.ab) = 0 THEN If(SameObj(o, x), "value")
                        ELSE LET v(i) == Div(x.c[i], x.a)
                                 \* alpha is known to half a micro only
                                 ok(p, q) == IsNum(p) /\ Abs(Sub(p, q)) <= Rel(q) + (IF x.a = 0 THEN Huge ELSE Add(MulDiv(Abs(q), 2, x.a), Div(1, x.a)))
                             IN  Changed(e, o, x, v, ok)
    [] e.op \in {"cgam", "cigam"} ->
         LET D == Dv(x.d) parts == IF e.op = "cgam" THEN D.f ELSE D.i
             ok(p, q) == p = q
             val(i) == \/ CurveOK(parts, x.c[i], o.c[i])
                       \/ (o.c[i] = ObjHi(t) * U /\ \E d \in {-2, 0, 2} : Curve(parts, Sat(x.c[i] + d)) >= ObjHi(t) * U - 4)
                       \/ (o.c[i] = ObjLo(t) * U /\ \E d \in {-2, 0, 2} : Curve(parts, Sat(x.c[i] + d)) <= ObjLo(t) * U + 4)
         IN  If(o.t = t /\ o.d = x.d /\ o.id = x.id /\ AlphaSame(x.t, o.ab, x.ab) /\ Len(o.c) = Len(x.c), "frame")
             \cup If(Len(o.c) = Len(x.c) /\ \A i \in 1..Len(x.c) : val(i) /\ o.c[i] >= ObjLo(t) * U /\ o.c[i] <= ObjHi(t) * U, "value")
    [] e.op = "setdef" -> If(SameObj([o EXCEPT !.d = x.d], x), "frame") \cup If(o.d = e.k[1], "def")
    [] e.op = "get" -> If(Len(e.fb) = 1 /\ Ord(e.fb[1]) = Ord(x.b[e.k[1] + 1]), "value")
    [] e.op = "read" -> LET n == NC(t) IN
         If(Len(e.fb) = n + 3 /\ (\A i \in 1..n : Ord(e.fb[i]) = Ord(x.b[i]))
            /\ (IF t \in TrueTypes THEN Abs(Sub(e.fr[n + 1], 255 * x.a)) <= 200 ELSE Ord(e.fb[n + 1]) = Ord(x.ab))
            /\ Ord(e.fb[n + 2]) = OrdOf(ObjHi(t)) /\ Ord(e.fb[n + 3]) = OrdOf(ObjLo(t)), "value")
    [] e.op = "eq" -> LET y == sl[e.s[2]] q == B01(SameVal(x, y)) IN If(e.r = <<q, 1 - q>>, "value")
    [] e.op = "assign" -> LET y == sl[e.s[2]] IN
         If(SameVal(o, y), "value") \cup If(AlphaSame(x.t, o.ab, x.ab), "alpha") \cup If(o.d = x.d, "def") \cup If(o.id = x.id, "identity")
    [] e.op = "bassign" -> LET y == sl[e.s[2]] IN
         If(SameVal(o, y), "value") \cup If(AlphaSame(y.t, o.ab, y.ab), "alpha") \cup If(o.d = y.d, "def") \cup If(o.id = x.id, "identity")
    [] e.op = "adjr" -> LET L == <<Col(s)>> D == Dv(x.d) F(M) == Val(e, M, D, D) IN
         If(o.t = t, "type") \cup If(o.d = x.d, "def") \cup If(o.id = x.id, "identity")
         \cup If(o.t = t /\ Accept(F, L, o, D, t \in TrueTypes), "value")
CopyBad(e) ==
  LET x == sl[e.s[2]] o == Post(e, e.s[1])
  IN  If(SameVal(o, x), "value") \cup If(AlphaSame(x.t, o.ab, x.ab), "alpha") \cup If(o.d = x.d, "def") \cup If(Fresh(o), "identity")

-----------------------------------------------------------------------------
(* Operations that compute colors                                            *)
\* o: result color, expected type t and definition d
ResultBad(e, o, t, d, F(_), L, D) ==
  LET tru == AnyTrue({L[i].t : i \in 1..Len(L)})
  IN  If(o.t = t /\ Len(o.c) = NC(t), "type") \cup If(o.d = d, "def")
      \cup If(o.t = t /\ Len(o.c) = NC(t) /\ Accept(F, L, o, D, tru), "value")
BinaryBad(e) ==
  LET x == sl[e.s[2]] o == Post(e, e.s[1]) D == Dv(x.d) L == <<[Col(e.s[2]) EXCEPT !.w = IF e.op \in {"add", "mix", "sub"} /\ x.t \in CylTypes THEN 9 ELSE 0], Col(e.s[3])>>
      F(M) == Val(e, M, D, D)
      tru == AnyTrue({L[1].t, L[2].t})
      quick(p) == LET H(M) == DissolveBlend(p, Flag(e, 1), Flag(e, 2), M[1], M[2], Wobble(D, M[1].w)) IN AcceptQuick(H, L, o, D, tru)
      noisy(p) == LET H(M) == DissolveBlend(p, Flag(e, 1), Flag(e, 2), M[1], M[2], Wobble(D, M[1].w)) IN AcceptNoisy(H, L, o, D, tru)
      picks == [1..3 -> BOOLEAN]
  IN  If(o.id # x.id /\ o.id # sl[e.s[3]].id, "identity") \cup
      (IF e.op = "blend" /\ e.f = "dissolve"
       THEN If(o.t = x.t /\ Len(o.c) = NC(x.t), "type") \cup If(o.d = x.d, "def")
            \cup If(o.t = x.t /\ Len(o.c) = NC(x.t) /\ ((\E p \in picks : quick(p)) \/ \E p \in picks : noisy(p)), "value")
       ELSE ResultBad(e, o, x.t, x.d, F, L, D))
AvgBad(e) ==
  LET L == [j \in 1..(Len(e.s) - 1) |-> Col(e.s[j + 1])] x == sl[e.s[2]] o == Post(e, e.s[1]) D == Dv(x.d)
      M == Val(e, L, D, D)
      tru == AnyTrue({x.t})
  IN  If(o.t = x.t, "type") \cup If(o.d = x.d, "def")
      \cup If(o.t = x.t /\ Len(o.c) = NC(x.t) /\ AlphaClose(tru, o.a, M.a, 0)
              /\ \A i \in 1..NC(x.t) : Abs(Sub(o.c[i], M.c[i])) <= 4 + Abs(M.c[i]) \div 400000, "value")
StatBad(e) == LET n == 3 * e.k[1] a == sl[e.s[1]].a b == sl[e.s[2]].a
                  want == IF a > b THEN (3 * n) \div 4 ELSE IF a < b THEN n \div 4 ELSE -1
                  \* components choose independently: all three alike with the odds 27 + 1 of 64
                  same == (7 * e.k[1]) \div 16
              IN  If(want = -1 \/ (e.r[1] - want) * (e.r[1] - want) <= 36 * ((n * 3) \div 16), "value")
                  \cup If(want = -1 \/ (e.r[2] - same) * (e.r[2] - same) <= 36 * (e.k[1] \div 4), "joint")
AdjBad(e) ==
  LET x == sl[e.s[2]] o == Post(e, e.s[1]) D == Dv(x.d) F(M) == Val(e, M, D, D)
  IN  ResultBad(e, o, x.t, x.d, F, <<Col(e.s[2])>>, D)
ComboBad(e) ==
  LET x == sl[e.s[1]] D == Dv(x.d) L == <<Col(e.s[1])>>
      n == IF e.f = "combination" THEN e.k[1] ELSE IF e.f = "monochromatic" THEN e.k[2] ELSE ComboCount(e.f, 0)
      p == IF Len(e.p) > 0 THEN e.p[1] ELSE 0
      o(j) == Post(e, e.out[j])
      self(j) == o(j).id = x.id \/ (SameVal(o(j), x) /\ AlphaSame(x.t, o(j).ab, x.ab) /\ o(j).d = x.d)
      tru == AnyTrue({x.t})
      at(j) == LET i == e.r[j + 1]
                   turned(d) == LET F(M) == ComboOp(e.f, n, i, p + d, M[1], Wobble(D, M[1].w)) IN AcceptQuick(F, L, o(j), D, tru)
                   blurred == LET F(M) == ComboOp(e.f, n, i, p, M[1], Wobble(D, M[1].w)) IN AcceptNoisy(F, L, o(j), D, tru)
                   prev == <<Color(o(j - 1).t, o(j - 1).c, o(j - 1).a)>>
                   G(M) == Mono(e.k[1], p, M[1], Wobble(D, M[1].w))
               IN  IF i = ComboSelf(e.f) \/ (e.f = "monochromatic" /\ i = 0) THEN self(j)
                   ELSE o(j).t = x.t /\ Len(o(j).c) = NC(x.t)
                        /\ (IF e.f = "monochromatic" THEN e.r[j + 1] # e.r[j] + 1 \/ Accept(G, prev, o(j), D, tru)
                            ELSE turned(0) \/ (e.f = "split" /\ \E d \in {-300, 300} : turned(d)) \/ blurred)   \* roundings of the complement
  IN  If(Len(e.r) > 0 /\ e.r[1] = n, "count")
      \cup If(\A j \in 1..Len(e.out) : o(j).t = x.t, "type") \cup If(\A j \in 1..Len(e.out) : o(j).d = x.d, "def")
      \cup If(\A j \in 1..Len(e.out) : at(j), "value")
AdaptBad(e) ==
  LET x == sl[e.s[2]] o == Post(e, e.s[1]) D == Dv(x.d) L == <<[Col(e.s[2]) EXCEPT !.w = 9]>> src == df[x.d]
      w == e.k[1]
  IN  IF src.w = w THEN If(SameVal(o, x) /\ AlphaSame(x.t, o.ab, x.ab) /\ o.d = x.d, "value")
      ELSE IF ~HasDef(e, o.d) THEN {"def"}
      ELSE LET r == ObsDef(e, o.d)
               E == ObsDv(e, o.d, gm[src.g])
               F(M) == Val(e, M, D, E)
               tru == AnyTrue({x.t})
           IN  If(o.t = x.t, "type") \cup If(o.d # x.d /\ r.w = w /\ r.g = src.g /\ r.pb = src.pb /\ r.wt = wp[w].v, "def")
               \cup If(DefMatOK(r), "defmat")
               \cup If(o.t = x.t /\ Len(o.c) = NC(x.t) /\ Accept(F, L, o, E, tru), "value")
DistBad(e) ==
  LET L == <<Col(e.s[1]), Col(e.s[2])>> D == Dv(sl[e.s[1]].d) E == Dv(sl[e.s[2]].d)
      raw == e.fr[1]
      o == IF e.f # "euclid2" THEN raw ELSE IF raw < Huge THEN Sqrt(raw) ELSE MulDiv(Sqrt(e.fm[1]), 31622777, U)
      F(M) == DistVal(e, M, D, E)
      X == F(L)
      lab == e.f \in {"cie76", "cie94", "cie00", "cie00_published", "cmc"} \/ (Len(e.k) > 0 /\ AllTypes[e.k[1] + 1] = "CIELUV")
      \* CIEDE2000 of a grey depends on the hue of its rounding errors
      grey == e.f = "cie00" /\ (\/ LET la == LabOf(L[1], D) IN Norm(<<la[2], la[3]>>) < 1000
                                 \/ LET lb == LabOf(L[2], E) IN Norm(<<lb[2], lb[3]>>) < 1000)
      \* errors of the Lab values of the operands
      lbs == <<Color("LAB", LabOf(L[1], D), U), Color("LAB", LabOf(L[2], E), U)>>
      shift(j, i, d) == [lbs EXCEPT ![j].c[i] = @ + d * (Tol("LAB", lbs[j].c, D)[i] \div 5)]
      blur == FoldSet(LAMBDA y, s : Min(Huge, s + y), 0, {Width(X, F(shift(j, i, d))) : j \in 1..2, i \in 1..3, d \in {-1, 1}})
      blurred == e.f \in {"cie94", "cmc", "cie00"} /\ IsNum(X) /\ IsNum(o) /\ (\A j \in 1..2 : \A i \in 1..3 : IsNum(lbs[j].c[i]))
                 /\ Abs(Sub(o, X)) <= 10000 + MulDiv(Abs(X), 1, 20000) + Min(blur, Max(20000, Abs(X) \div 100))
      squares == X # Free /\ IsNum(o) /\ Mul(Abs(Sub(o, X)), Add(Abs(o), X)) <= 6000   \* cancellation under the root
  IN  If(X = Free \/ (IsNum(raw) /\ raw >= 0), "sign")
      \cup If(e.s[1] # e.s[2] \/ Ord(e.fb[1]) = 0, "self")
      \cup If((e.f \in {"cie94", "cmc"} /\ squares) \/ blurred
              \/ (e.f = "cmc" /\ \E d \in {-200, 200} : AcceptNum(F, <<Nudge(L[1], 1, d), L[2]>>, o, 20000, 10000))   \* near its threshold of lightness
              \/ AcceptNum(F, L, o, IF grey THEN 100 ELSE 20000, IF grey THEN 100000 ELSE IF lab THEN 10000 ELSE IF e.f = "euclid2" THEN (IF raw <= 2 THEN 1000 ELSE 600) ELSE 30), "value")   \* squares below 10^-6
NamedBad(e) ==
  LET b == Named[e.f] X == ByteColor(b) D == Dv(e.k[1])
      ts == <<"RGB_TRUE", "RGB_DEEP", "GREY_TRUE", "GREY_DEEP", "CMYK", "HSV", "HSL", "XYZ", "XYY", "LAB">>
      at(j) == LET o == Post(e, e.out[j]) F(M) == [t |-> ts[j], c |-> Conv("RGB_TRUE", M[1].c, ts[j], D), a |-> M[1].a]
               IN  o.t = ts[j] /\ Len(o.c) = NC(ts[j]) /\ Accept(F, <<Color(X.t, X.c, X.a)>>, o, D, TRUE)
  IN  If(Len(e.out) = 10 /\ \A j \in 1..Len(e.out) : at(j), "value")
      \cup If(\A j \in 1..Len(e.out) : Post(e, e.out[j]).d = e.k[1], "def")
      \cup If(e.r = <<256 * b[4] + b[1], 256 * b[2] + b[3]>>, "code")
\* two colors that must agree
\* an intermediate result Lm of type true color may have been rounded the other way
\* (x: the color it was made from)
Around(x, Lm, D) ==
  LET t == Lm[1].t T == Tol(t, Lm[1].c, D) IN
  Nudged(Lm)
  \cup (IF x.t \in XyzTypes THEN {[Lm EXCEPT ![1].c = Conv(x.t, x.c, t, Wobble(D, w))] : w \in 1..8} ELSE {})
  \cup (IF t \in TrueTypes THEN {[Lm EXCEPT ![1].c[i] = Clamp(@ + d, 0, 255 * U)] : i \in 1..NC(t), d \in {-U, U}} ELSE {})
  \cup (IF t \in XyzTypes /\ Free \notin {Lm[1].c[i] : i \in 1..3}
         THEN {[Lm EXCEPT ![1].c[i] = IF i = Hue(t) THEN Wrap(Add(@, d * (Min(T[i], 90 * U) \div 4))) ELSE Clamp(Add(@, d * (Min(T[i], 5 * U) \div 4)), ObjLo(t) * U, Hi(t, i) * U)] : i \in 1..NC(t), d \in {-1, 1}} ELSE {})
NearBad(e) ==
  LET kind == e.k[1] IN
  CASE kind = 4 ->   \* results of two entry points
         LET x == sl[e.s[1]] y == sl[e.s[2]] IN
         If(x.t = y.t /\ Len(x.c) = Len(y.c) /\ (\A i \in 1..Len(x.c) : x.c[i] = y.c[i] \/ Abs(Sub(x.c[i], y.c[i])) <= Rel(x.c[i])) /\ Abs(x.a - y.a) <= 3 /\ x.d = y.d, "value")
    [] kind = 7 ->   \* x converted to e.f and back to y
         LET x == sl[e.s[1]] y == sl[e.s[2]] D == Dv(x.d) L == <<Col(e.s[1])>>
             mid == Conv(x.t, x.c, e.f, D)
             exempt == Hue(e.f) > 0 /\ mid[Hue(e.f)] >= 359 * U - 5000
             back(M) == [t |-> x.t, c |-> Conv(e.f, M[1].c, x.t, Wobble(D, M[1].w)), a |-> x.a]
             Lm == <<[Color(e.f, mid, x.a) EXCEPT !.w = IF x.t \in XyzTypes THEN 9 ELSE 0]>>
             X == [t |-> x.t, c |-> x.c, a |-> x.a]
             B == back(Lm)
             T == Tol(x.t, x.c, D)
             wide(k) == [i \in 1..NC(x.t) |-> k * (Min(500 * U, T[i]) + (IF x.t \in TrueTypes THEN 0 ELSE IF i = Hue(x.t) THEN 20000 ELSE (ObjHi(x.t) - ObjLo(x.t)) * 50))]
             fr == Free \in {mid[i] : i \in 1..Len(mid)}
             rep == ~fr /\ CloseTo(B, X, wide(1), 0, FALSE)       \* does e.f represent x?
             o == [t |-> y.t, c |-> y.c, a |-> x.a]
             trip(M) == [t |-> x.t, c |-> Conv(e.f, Conv(x.t, M[1].c, e.f, Wobble(D, M[1].w)), x.t, Wobble(D, M[1].w)), a |-> x.a]
             ok == CloseTo(o, X, wide(2), 0, FALSE) \/ AcceptIn(back, Lm, Around(x, Lm, D), o, D, FALSE) \/ AcceptNoisy(trip, L, o, D, FALSE)
         IN  If(x.t = y.t /\ (~rep \/ exempt \/ ok), "value")
    [] kind = 8 ->   \* x; its conversion y to a type; the same by way of type e.f
         LET x == sl[e.s[1]] y == sl[e.s[2]] z == sl[e.s[3]] D == Dv(x.d)
             mid == Conv(x.t, x.c, e.f, D)
             bk == Conv(e.f, mid, x.t, D)
             fr == Free \in ({mid[i] : i \in 1..Len(mid)} \cup {bk[i] : i \in 1..Len(bk)})
             \* does e.f represent x?
             rep == ~fr /\ \A i \in 1..NC(x.t) : CloseC(x.t, i, bk[i], x.c[i], (IF x.t \in TrueTypes THEN 1000 ELSE 1) + Max(Tol(x.t, x.c, D)[i], IF i = Hue(x.t) THEN 20000 ELSE (ObjHi(x.t) - ObjLo(x.t)) * 50))
             exempt == Hue(e.f) > 0 /\ mid[Hue(e.f)] >= 359 * U - 5000
             exempt2 == Hue(y.t) > 0 /\ y.c[Hue(y.t)] >= 359 * U - 5000
             Lm == <<[Color(e.f, mid, x.a) EXCEPT !.w = IF x.t \in XyzTypes THEN 9 ELSE 0]>>
             go(M) == [t |-> y.t, c |-> Conv(e.f, M[1].c, y.t, Wobble(D, M[1].w)), a |-> y.a]
             o == [t |-> z.t, c |-> z.c, a |-> y.a]
             Y == [t |-> y.t, c |-> y.c, a |-> y.a]
             tol == LET T == Tol(y.t, y.c, D) IN [i \in 1..NC(y.t) |-> 2 * Min(U * 1000, T[i])]
             trip(M) == [t |-> y.t, c |-> Conv(e.f, Conv(x.t, M[1].c, e.f, Wobble(D, M[1].w)), y.t, Wobble(D, M[1].w)), a |-> y.a]
             ok == CloseTo(o, Y, tol, 0, FALSE) \/ AcceptIn(go, Lm, Around(x, Lm, D), o, D, FALSE) \/ AcceptNoisy(trip, <<Color(x.t, x.c, x.a)>>, o, D, FALSE)
         IN  If(~rep \/ exempt \/ exempt2 \/ (z.t = y.t /\ ok), "value")

-----------------------------------------------------------------------------
(* Definitions, white points, gamma curves, matrices                         *)
DefBad(e) ==
  LET d == e.r[1] r == ObsDef(e, d) IN
  CASE e.f \in {"custom", "customa"} ->
         If(r.w = e.k[1] /\ r.g = e.k[2] /\ r.wt = wp[e.k[1]].v /\ r.wb = wp[e.k[1]].b, "def")
         \cup If(PrimOK(r) /\ \A j \in 1..3 : Ord(r.pb[3 * j - 2]) = Ord(e.pb[2 * j - 1]) /\ Ord(r.pb[3 * j - 1]) = Ord(e.pb[2 * j]), "prim")
         \cup If(DefMatOK(r), "defmat")
    [] e.f = "copy" -> If(SameDef(r, df[e.k[1]]) /\ r.acc = df[e.k[1]].acc, "def")
    [] OTHER -> LET x == SpacesTable[e.f] IN
         If(PrimOK(r) /\ \A j \in 1..3 : Abs(r.prim[3 * j - 2] - x.p[2 * j - 1]) <= 2 /\ Abs(r.prim[3 * j - 1] - x.p[2 * j]) <= 2, "prim")
         \cup If(Near6(r.wt, Whites[x.w], 110), "white") \cup If(DefMatOK(r), "defmat")
SetWpBad(e) ==
  LET r == ObsDef(e, e.k[1]) x == df[e.k[1]]
  IN  If(r.w = e.k[2] /\ r.wt = wp[e.k[2]].v /\ r.wb = wp[e.k[2]].b /\ r.g = x.g /\ r.pb = x.pb /\ r.acc = x.acc, "def") \cup If(DefMatOK(r), "defmat")
SetGmBad(e) == LET r == ObsDef(e, e.k[1]) IN If(r.g = e.k[2] /\ SameDef(r, [df[e.k[1]] EXCEPT !.g = r.g]), "def")
WpBad(e) ==
  LET r == ObsWp(e, e.r[1]) v == r.v b == r.b p == e.p IN
  If(r.u = r.b, "access") \cup
  CASE e.f \in {"full", "fulla"} -> If(\A i \in 1..5 : Ord(b[i]) = Ord(e.pb[i]), "value") \cup If(Abs(v[6] - (U - p[4] - p[5])) <= 2, "value")
    [] e.f = "tri" -> If(\A i \in 1..3 : Ord(b[i]) = Ord(e.pb[i]), "value") \cup If(WpOK(v) /\ LET s == Add(Add(p[1], p[2]), p[3]) IN Near6(v, <<p[1], p[2], p[3], Div(p[1], s), Div(p[2], s), Div(p[3], s)>>, 4), "value")
    [] e.f = "chr" -> If(\A i \in 1..2 : Ord(b[i + 3]) = Ord(e.pb[i]), "value")
                      \cup If(WpOK(v) /\ LET z == U - p[1] - p[2] IN Abs(v[2] - U) <= 2 /\ Abs(v[6] - z) <= 2 /\ Near6(v, <<Div(p[1], p[2]), U, Div(z, p[2])>>, 4 + Div(Add(v[1], v[3]), 10 * p[2])), "value")
    [] e.f = "copy" -> If(b = wp[e.k[1]].b, "value")
    [] OTHER -> If(Near6(v, Whites[e.f], 110) /\ Abs(v[4] + v[5] + v[6] - U) <= 3 /\ \A i \in 1..3 : Abs(Sub(MulDiv(v[i], U, v[1] + v[2] + v[3]), v[i + 3])) <= 800, "value")
GmopBad(e) ==
  LET g == GId(e.k[1]) x == gm[g] IN
  (IF HasGm(e, g) THEN LET q == ObsGm(e, g) w == GmWant(e) IN If(ListOK(q.f, w[1]) /\ ListOK(q.i, w[2]), "parts") ELSE {"parts"})
  \cup CASE e.f = "eval" -> If(CurveOK(x.f, e.p[1], e.fr[1]) /\ CurveOK(x.i, e.p[1], e.fr[2]), "value")
         [] e.f = "round" -> If(CurveOK(x.f, e.p[1], e.fr[1]) /\ CurveOK(x.i, e.fr[1], e.fr[2]) /\ CurveOK(x.i, e.p[1], e.fr[3]) /\ CurveOK(x.f, e.fr[3], e.fr[4]), "value")
                              \cup If(Abs(Sub(e.fr[2], e.p[1])) <= 200 /\ Abs(Sub(e.fr[4], e.p[1])) <= 400, "inverse")
         [] e.f = "remove" -> If(e.r = <<B01(e.k[2] < Len(x.fid))>>, "value")
         [] e.f = "iremove" -> If(e.r = <<B01(e.k[2] < Len(x.iid))>>, "value")
         [] OTHER -> {}
MatBad(e) ==
  LET A == MatA(e) B == MatB(e) obs(s) == e.mats[CHOOSE i \in 1..Len(e.mats) : e.mats[i].s = s] IN
  CASE e.f \in Makers \cup Changers ->
         LET m == MatRes(e.op, e.f, A, B, e.k, e.p) o == obs(e.s[1])
         IN  If(o.r = m.r /\ o.c = m.c /\ o.ok = 1, "shape")
             \cup If(IF e.f \in {"times", "timeseq", "sdiv", "stimes", "splus", "sminus", "plus", "minus", "pluseq", "minuseq", "adjoint"} THEN SameMat(o, m) ELSE IF e.f = "invert" THEN InvMat(A, o, m) ELSE ExactMat(o, m), "value")
    [] e.f \in {"get", "cget"} -> If(Len(e.fr) = 1 /\ e.fr[1] = El(A, e.k[1] + 1, e.k[2] + 1), "value")
    [] e.f = "vec" -> LET v == MVec(A, e.p) IN If(Len(e.fr) = A.r /\ \A i \in 1..A.r : Abs(Sub(e.fr[i], v[i])) <= MTol(v[i]), "value")
    [] e.f = "det" -> IF ~Square(A) THEN If(e.r = <<0>>, "value")
                      ELSE IF IsWhole(A) THEN If(e.r = <<DetInt(A)>>, "value")
                      ELSE If(Abs(Sub(e.fr[1], DetFix(A))) <= DetTol(A) + Abs(DetFix(A)) \div 100000, "value")
    [] OTHER -> If(e.r = MatQuery(e.f, A, B, e.k), "value")

OpBad(e) ==
  CASE e.op = "new" -> NewBad(e, Post(e, e.s[1]))
    [] e.op \in {"hexs", "hexi"} ->
         LET X == ByteColor(IF e.op = "hexs" THEN HexBytes(e.ch) ELSE IntBytes(e.k[2], e.k[3])) o == Post(e, e.s[1])
         IN  If(o.t = "RGB_TRUE" /\ o.c = X.c, "value") \cup If(Abs(o.a - X.a) <= 1, "alpha") \cup If(o.d = e.k[1], "def")
    [] e.op \in {"copy", "base"} -> CopyBad(e)
    [] e.op = "plus" -> PlusBad(e)
    [] e.op \in {"setc", "gset", "alpha", "amul", "adiv", "cgam", "cigam", "setdef", "get", "read", "eq", "assign", "bassign", "adjr"} -> OneBad(e)
    [] e.op = "conv" -> ConvBad(e)
    [] e.op \in {"blend", "pd", "add", "mix", "sub"} -> BinaryBad(e)
    [] e.op = "avg" -> AvgBad(e)
    [] e.op = "dissolve_stat" -> StatBad(e)
    [] e.op = "adj" -> AdjBad(e)
    [] e.op = "comb" -> ComboBad(e)
    [] e.op = "adapt" -> AdaptBad(e)
    [] e.op = "adlum" -> LET v == IF Len(e.p) = 1 THEN e.p[1] ELSE MulDiv(e.p[1], e.p[2], 100 * U) IN If(Abs(Sub(e.fr[1], v)) <= Rel(v), "value")
    [] e.op = "dist" -> DistBad(e)
    [] e.op = "named" -> NamedBad(e)
    [] e.op = "near" -> NearBad(e)
    [] e.op = "def" -> DefBad(e)
    [] e.op = "setwp" -> SetWpBad(e)
    [] e.op = "setgm" -> SetGmBad(e)
    [] e.op = "wp" -> WpBad(e)
    [] e.op = "wpeq" -> LET q == B01(wp[e.k[1]].b = wp[e.k[2]].b) IN If(e.r = <<q, 1 - q>>, "value")
    [] e.op = "t2c" -> LET s == Add(Add(e.p[1], e.p[2]), e.p[3]) IN If(Len(e.fr) = 3 /\ Near6(e.fr, <<Div(e.p[1], s), Div(e.p[2], s), Div(e.p[3], s)>>, 4), "value")
    [] e.op = "c2t" -> LET y == IF Len(e.p) = 4 THEN e.p[4] ELSE U IN
                       If(Len(e.fr) = 3 /\ LET v == <<MulDiv(e.p[1], y, e.p[2]), y, MulDiv(e.p[3], y, e.p[2])>> IN \A i \in 1..3 : Abs(Sub(e.fr[i], v[i])) <= 4 + Div(Abs(v[i]), e.p[2]) \div 500000, "value")
    [] e.op = "gpart" -> IF e.f = "copy" THEN If(e.fr[1] = pt[e.k[1]].bo, "value") ELSE If(Ord(e.fb[1]) = Ord(e.pb[1]), "value")
    [] e.op \in {"gpborder"} -> If(Ord(e.fb[1]) = Ord(e.pb[1]), "value")
    [] e.op = "gpassign" -> If(e.fr[1] = pt[e.k[2]].bo, "value")
    [] e.op = "gpcmp" -> LET w == PartCmp(pt[e.k[1]], pt[e.k[2]]) IN If(\A i \in 1..12 : w[i] = 2 \/ e.r[i] = w[i], "value")
    [] e.op = "gm" -> IF e.f \in PresetNames THEN {} ELSE
                      LET q == ObsGm(e, e.r[1]) w == GmWant(e) IN If(ListOK(q.f, w[1]) /\ ListOK(q.i, w[2]), "parts")
    [] e.op = "gmop" -> GmopBad(e)
    [] e.op \in {"mf", "mi", "md"} -> MatBad(e)
    [] OTHER -> {}

-----------------------------------------------------------------------------
(* What a call must leave alone                                              *)
Mutators == {"setc", "gset", "alpha", "amul", "adiv", "cgam", "cigam", "setdef", "assign", "bassign", "adjr"}
WrittenSlots(e) == {e.out[i] : i \in 1..Len(e.out)} \cup (IF e.op \in Mutators /\ e.err = "none" THEN {e.s[1]} ELSE {})
WrittenDefs(e) == {e.nd[i] : i \in 1..Len(e.nd)} \cup (IF e.op \in {"setwp", "setgm"} THEN {e.k[1]} ELSE {}) \cup (IF e.op = "def" /\ e.err = "none" THEN {e.r[1]} ELSE {})
WrittenGms(e) == IF e.op = "gmop" THEN {GId(e.k[1])} ELSE IF e.op = "gm" /\ e.err = "none" THEN {e.r[1]} ELSE {}
WrittenMats(e) == IF e.op \in {"mf", "mi", "md"} /\ e.err = "none" /\ e.f \in Makers \cup Changers THEN {e.s[1]} ELSE {}
FrameBad(e) ==
  LET W1 == WrittenSlots(e) W2 == WrittenDefs(e) W3 == WrittenGms(e) W4 == WrittenMats(e) IN
  If(/\ \A i \in 1..Len(e.post) : LET o == e.post[i] IN o.sl \in W1 \/ SameObj(o, sl[o.sl])
     /\ \A i \in 1..Len(e.defs) : LET r == e.defs[i] IN r.d \in W2 \/ r.d \notin DOMAIN df \/ SameDef(r, df[r.d])
     /\ \A i \in 1..Len(e.wps) : LET r == e.wps[i] IN r.w \notin DOMAIN wp \/ r.b = wp[r.w].b
     /\ \A i \in 1..Len(e.gms) : LET r == e.gms[i] IN r.g \in W3 \/ r.g \notin DOMAIN gm \/ (r.f = gm[r.g].fid /\ r.i = gm[r.g].iid)
     /\ \A i \in 1..Len(e.mats) : LET r == e.mats[i] IN r.s = 0 \/ r.s \in W4 \/ (r.s \in DOMAIN mt /\ r.v = mt[r.s].v /\ r.r = mt[r.s].r /\ r.c = mt[r.s].c)
     , "others")
-----------------------------------------------------------------------------
(* The same call again: results are a function of the values of the arguments *)
Remembers == Prop = "C21"
ObjV(o) == <<o.t, o.b, o.ab>>
DefV(d) == IF d \notin DOMAIN df THEN <<>> ELSE <<df[d].pb, df[d].wb, gm[df[d].g].fid, gm[df[d].g].iid>>
Arg(s) == IF s = 0 THEN <<>> ELSE IF sl[s].id = 0 THEN <<>> ELSE <<ObjV(sl[s]), DefV(sl[s].d)>>
Repeatable == {"conv", "pd", "add", "mix", "sub", "plus", "avg", "adj", "adjr", "cgam", "cigam", "amul", "adiv", "comb", "dist", "adapt", "new", "hexs", "hexi", "named", "t2c", "c2t", "adlum", "copy", "base"}
Keyed(e) == e.op \in Repeatable \/ (e.op = "blend" /\ e.f # "dissolve") \/ (e.op = "gmop" /\ e.f \in {"eval", "round"})
Key(e) ==
  LET O == Operands(e)
      ks == CASE e.op \in {"new", "hexi", "adapt", "named"} -> Tail(e.k) [] e.op = "gmop" -> <<>> [] OTHER -> e.k
  IN  <<e.f, ks, e.pb, [i \in 1..Len(O) |-> Arg(O[i])], [i \in 1..Len(O) |-> B01(O[i] # 0 /\ O[1] # 0 /\ sl[O[i]].d = sl[O[1]].d)],   \* only colors of one definition combine
        CASE e.op = "adapt" -> <<wp[e.k[1]].b, B01(df[sl[e.s[2]].d].w = e.k[1])>>
          [] e.op = "dist" -> <<B01(e.s[1] = e.s[2])>>
          [] e.op = "named" -> DefV(e.k[1])
          [] e.op = "hexs" -> e.ch
          [] e.op = "gmop" -> LET g == GId(e.k[1]) IN <<gm[g].fid, gm[g].iid>>
          [] OTHER -> <<>> >>
Results(e) ==
  LET outs == IF e.err # "none" THEN <<>> ELSE IF e.op \in {"adjr", "cgam", "cigam", "amul", "adiv"} THEN <<e.s[1]>> ELSE e.out
  IN  <<e.err, e.r, e.fb, e.fr, [i \in 1..Len(outs) |-> ObjV(Post(e, outs[i]))],
        IF e.op = "adapt" /\ e.err = "none" /\ HasDef(e, Post(e, e.s[1]).d) THEN LET r == ObsDef(e, Post(e, e.s[1]).d) IN <<r.pb, r.wb, r.mb, r.imb>> ELSE <<>> >>
Told(e) == e.op \in DOMAIN memo /\ Key(e) \in DOMAIN memo[e.op]
AgainBad(e) == If(~Keyed(e) \/ ~Told(e) \/ memo[e.op][Key(e)] = Results(e), "again")
NextMemo(e) == IF ~Remembers \/ e.err = "skip" \/ ~Keyed(e) THEN memo
               ELSE IF e.op \notin DOMAIN memo THEN TLCEval((e.op :> (Key(e) :> Results(e))) @@ memo)
               ELSE IF Key(e) \in DOMAIN memo[e.op] THEN memo
               ELSE TLCEval([memo EXCEPT ![e.op] = (Key(e) :> Results(e)) @@ @])

Bad(e) ==
  IF e.err = "skip" THEN {}
  ELSE LET x == Err(e) IN
       IF e.err # x THEN {IF x = "none" THEN "error" ELSE "accepted"}
       ELSE FrameBad(e) \cup (IF x = "none" THEN OpBad(e) ELSE {}) \cup (IF Remembers THEN AgainBad(e) ELSE {})

Home(e) ==   \* property that describes the operation
  CASE e.op \in {"new", "setc", "alpha", "read"} -> {"C01"}
    [] e.op = "gset" -> {"C01"}
    [] e.op \in {"hexs", "hexi"} -> {"C03"}
    [] e.op \in {"copy", "base", "plus", "amul", "adiv", "setdef", "get", "eq", "assign", "bassign"} -> {"C02"}
    [] e.op = "conv" -> {"C04"}
    [] e.op = "near" -> {IF e.k[1] = 4 THEN "C04" ELSE IF e.k[1] = 7 THEN "C07" ELSE "C08"}
    [] e.op \in {"blend", "dissolve_stat"} -> {"C09"}
    [] e.op = "pd" -> {"C10"}
    [] e.op \in {"add", "mix", "sub", "avg"} -> {"C11"}
    [] e.op = "dist" -> {"C13"}
    [] e.op = "comb" -> {"C14"}
    [] e.op \in {"adj", "adjr"} -> {"C15"}
    [] e.op \in {"adapt", "adlum"} -> {"C16"}
    [] e.op \in {"cgam", "cigam", "gpart", "gpborder", "gpassign", "gpcmp", "gm"} -> {"C17"}
    [] e.op = "gmop" -> IF e.k[1] < 0 THEN {"C17", "C19"} ELSE {"C17"}
    [] e.op \in {"def", "setwp", "setgm"} -> {"C19"}
    [] e.op \in {"wp", "wpeq", "t2c", "c2t", "named"} -> {"C20"}
    [] e.op \in {"mf", "mi", "md"} -> {"C18"}
    [] e.op = "audit" -> {Prop}
    [] OTHER -> {}
Owners(e, a) ==
  CASE a = "again" -> {"C21"}
    [] a = "others" -> Home(e) \cup {"C21"} \cup (IF e.err = "none" THEN {} ELSE {"C12"})
    [] a = "identity" -> Home(e) \cup {"C21"}
    [] e.op = "conv" /\ a = "value" -> IF e.f \in XyzTypes \/ sl[e.s[2]].t \in XyzTypes THEN {"C06"} ELSE {"C05"}
    [] a = "accepted" -> {"C12"} \cup (IF e.op \in {"gset", "get", "plus", "base"} THEN {"C02"} ELSE IF e.op \in {"mf", "mi", "md"} THEN {"C18"} ELSE IF e.op = "hexs" THEN {"C03"} ELSE {})
    [] a = "error" -> Home(e) \cup {"C12"}
    [] e.op = "adapt" /\ a = "defmat" -> {"C16", "C19"}
    [] OTHER -> Home(e)
Judged(e) == IF Prop = "ALL" THEN Bad(e) ELSE {a \in Bad(e) : Prop \in Owners(e, a)}

\* the value computed by the specification, for the report
Want(e) ==
  IF e.err # "none" \/ e.err # Err(e) THEN Err(e)
  ELSE CASE e.op \in {"conv", "blend", "pd", "add", "mix", "sub", "adj", "adjr"} /\ ~(e.op = "blend" /\ e.f = "dissolve") ->
              LET O == Operands(e) L == [j \in 1..Len(O) |-> Col(O[j])] D == Dv(sl[O[1]].d) IN Val(e, L, D, D)
         [] e.op = "dist" -> DistVal(e, <<Col(e.s[1]), Col(e.s[2])>>, Dv(sl[e.s[1]].d), Dv(sl[e.s[2]].d))
         [] e.op = "adapt" /\ HasDef(e, Post(e, e.s[1]).d) -> LET x == sl[e.s[2]] IN Val(e, <<Col(e.s[2])>>, Dv(x.d), ObsDv(e, Post(e, e.s[1]).d, gm[df[x.d].g]))
         [] OTHER -> "-"
-----------------------------------------------------------------------------
WithOrigin(p, o) == [k |-> p.k, a |-> p.a, b |-> p.b, e |-> p.e, bo |-> p.bo, o |-> o]
Init == /\ l = 1
        /\ sl = [s \in Slots |-> NoObj]
        /\ memo = <<>> /\ df = <<>> /\ wp = <<>> /\ gm = <<>> /\ pt = (0 :> WithOrigin(NoPart(0), 0)) /\ mt = <<>>

\* union of functions; the first wins
Merge(g, h) == g @@ h
Strip(o) == [id |-> o.id, t |-> o.t, bs |-> o.bs, c |-> o.c, b |-> o.b, a |-> o.a, ab |-> o.ab, d |-> o.d]
NextSl(e) ==
  IF Len(e.post) = 0 THEN sl
  ELSE LET pi == [i \in {e.post[j].id : j \in 1..Len(e.post)} |-> e.post[CHOOSE j \in 1..Len(e.post) : e.post[j].id = i]]
           ps == {e.post[j].sl : j \in 1..Len(e.post)}
       IN  TLCEval([s \in Slots |-> IF s \in ps THEN Strip(Post(e, s))
                            ELSE IF sl[s].id # 0 /\ sl[s].id \in DOMAIN pi THEN Strip(pi[sl[s].id]) ELSE sl[s]])
RECURSIVE Fold(_, _, _, _)
Fold(f, e, q, n) == IF n = 0 THEN f ELSE LET g == Fold(f, e, q, n - 1) IN
  CASE q = "d" -> (e.defs[n].d :> e.defs[n]) @@ g
    [] q = "w" -> (e.wps[n].w :> [v |-> e.wps[n].v, b |-> e.wps[n].b]) @@ g
    [] q = "m" -> IF e.mats[n].s = 0 THEN g ELSE (e.mats[n].s :> [k |-> e.mats[n].k, r |-> e.mats[n].r, c |-> e.mats[n].c, v |-> e.mats[n].v]) @@ g
NextDf(e) == IF Len(e.defs) = 0 THEN df ELSE TLCEval(Fold(df, e, "d", Len(e.defs)))
NextWp(e) == IF Len(e.wps) = 0 THEN wp ELSE TLCEval(Fold(wp, e, "w", Len(e.wps)))
NextMt(e) == IF Len(e.mats) = 0 THEN mt ELSE TLCEval(Fold(mt, e, "m", Len(e.mats)))
GmRec(e, r) ==
  LET new == CASE e.op = "gm" /\ e.f \in PresetNames -> Preset(e.f)
               [] e.op = "def" /\ e.f \in DOMAIN SpacesTable /\ r.g \notin DOMAIN gm -> Preset(SpacesTable[e.f].g)
               [] Known(r.f) /\ Known(r.i) -> [f |-> PartsOf(r.f), i |-> PartsOf(r.i)]
               [] e.op = "gm" /\ e.f = "copy" -> [f |-> gm[e.k[1]].f, i |-> gm[e.k[1]].i]
               [] e.op = "gmop" /\ e.f = "assign" /\ r.g = e.k[1] -> [f |-> gm[e.k[2]].f, i |-> gm[e.k[2]].i]
               [] r.g \in DOMAIN gm -> [f |-> gm[r.g].f, i |-> gm[r.g].i]
               [] OTHER -> [f |-> <<>>, i |-> <<>>]
  IN  [f |-> new.f, i |-> new.i, fid |-> r.f, iid |-> r.i]
RECURSIVE FoldGm(_, _)
FoldGm(e, n) == IF n = 0 THEN gm ELSE (e.gms[n].g :> GmRec(e, e.gms[n])) @@ FoldGm(e, n - 1)
NextGm(e) == IF Len(e.gms) = 0 THEN gm ELSE TLCEval(FoldGm(e, Len(e.gms)))
NextPt(e) ==
  IF e.err # "none" THEN pt
  ELSE CASE e.op = "gpart" -> (e.r[1] :> IF e.f = "copy" THEN pt[e.k[1]] ELSE WithOrigin(UserPart(e.k[1], e.p[1]), e.r[1])) @@ pt
         [] e.op = "gpborder" -> [pt EXCEPT ![e.k[1]].bo = e.p[1]]
         [] e.op = "gpassign" -> [pt EXCEPT ![e.k[1]] = pt[e.k[2]]]
         [] OTHER -> pt
Next ==
  /\ l <= Len(Log)
  /\ LET e == Log[l] bad == Judged(e)
     IN  /\ IF bad = {} THEN TRUE ELSE PrintT(<<"REJECT", e.n, e.op, e.f, bad, Want(e)>>)
         /\ IF l = Len(Log) THEN PrintT(<<"DONE", l>>) ELSE TRUE
         /\ sl' = NextSl(e) /\ df' = NextDf(e) /\ wp' = NextWp(e) /\ gm' = NextGm(e) /\ pt' = NextPt(e) /\ mt' = NextMt(e) /\ memo' = NextMemo(e)
  /\ l' = l + 1
Spec == Init /\ [][Next]_vars
View == l
=============================================================================
