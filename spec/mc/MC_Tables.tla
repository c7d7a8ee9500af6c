------------------------------ MODULE MC_Tables ------------------------------
(* Consistency of the published tables and of conversions of coordinates.     *)
EXTENDS Tables, FiniteSets
VARIABLES k, n
mv == <<k, n>>
Init == (k = "w" /\ n \in DOMAIN Whites) \/ (k = "c" /\ n \in DOMAIN Named) \/ (k = "s" /\ n \in DOMAIN SpacesTable)
Next == UNCHANGED mv
W == Whites[n]
Sum == W[1] + W[2] + W[3]
WhiteConsistent == k = "w" => /\ W[2] = U /\ W[1] > 0 /\ W[3] > 0
                              /\ \A i \in {1, 2} : Abs(MulDiv(W[i], U, Sum) - W[i + 3]) <= 800
                              /\ Abs(MulDiv(W[4], U, W[5]) - W[1]) <= 3000
C == Named[n]
NameBytes == k = "c" => Len(C) = 4 /\ \A i \in 1..4 : C[i] \in 0..255
\* the only names that share a value are the published synonyms
Synonyms == {{"Aqua", "Cyan"}, {"Fuchsia", "Magenta"}}
Distinct == k = "c" => \A m \in DOMAIN Named : (m # n /\ Named[m] = C) => {m, n} \in Synonyms
Opaque == k = "c" => (C[4] = 255 \/ n = "Transparent")
S == SpacesTable[n]
SpacesOk == k = "s" => /\ S.w \in DOMAIN Whites /\ Len(S.p) = 6 /\ \A i \in {1, 3, 5} : S.p[i] >= 0 /\ S.p[i + 1] >= 0 /\ S.p[i] + S.p[i + 1] <= U
\* the primaries span a triangle that holds the white point
Side(a, b, q) == Sub(Mul(b[1] - a[1], q[2] - a[2]), Mul(b[2] - a[2], q[1] - a[1]))
Gamut == k = "s" => LET r == <<S.p[1], S.p[2]>> g == <<S.p[3], S.p[4]>> b == <<S.p[5], S.p[6]>> q == <<Whites[S.w][4], Whites[S.w][5]>>
                    IN  Side(r, g, q) > 0 /\ Side(g, b, q) > 0 /\ Side(b, r, q) > 0
=============================================================================
