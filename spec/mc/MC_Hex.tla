------------------------------- MODULE MC_Hex --------------------------------
(* The set of accepted texts is the one of the automaton
   start -#-> body, start/body -digit-> ... -6 or 8 digits-> accept,
   and the bytes of an accepted text are the ones its digits spell.  All texts
   over an alphabet with representatives of every class of characters.       *)
EXTENDS ColorMagic
CONSTANTS Alphabet, MaxLen
VARIABLES txt, n, bad, num
\* n: digits read, bad: dead state, num: bytes spelled so far, as a sequence
mv == <<txt, n, bad, num>>
Digit(c) == CASE c = 48 -> 0 [] c = 57 -> 9 [] c = 65 -> 10 [] c = 70 -> 15 [] c = 97 -> 10 [] c = 102 -> 15 [] OTHER -> -1
MInit == /\ txt = <<>> /\ n = 0 /\ bad = FALSE /\ num = <<>>
         /\ sl = <<>> /\ df = <<>> /\ wp = <<>> /\ gm = <<>> /\ pt = <<>> /\ mt = <<>>
MNext == /\ Len(txt) < MaxLen
         /\ \E c \in Alphabet :
              /\ txt' = Append(txt, c)
              /\ IF c = 35 /\ txt = <<>> THEN UNCHANGED <<n, bad, num>>
                 ELSE IF Digit(c) < 0 THEN bad' = TRUE /\ UNCHANGED <<n, num>>
                 ELSE /\ n' = n + 1 /\ UNCHANGED bad
                      /\ num' = IF n % 2 = 0 THEN Append(num, Digit(c)) ELSE [num EXCEPT ![Len(num)] = 16 * @ + Digit(c)]
         /\ UNCHANGED <<sl, df, wp, gm, pt, mt>>
Accepted == HexOK(txt) <=> (~bad /\ n \in {6, 8})
Bytes == HexOK(txt) => HexBytes(txt) = (IF n = 8 THEN <<num[2], num[3], num[4], num[1]>> ELSE <<num[1], num[2], num[3], 255>>)
Ranges == HexOK(txt) => LET c == ByteColor(HexBytes(txt)) IN InRange(c.t, c.c) /\ c.a \in 0..U
\* the integer with the same bytes gives the same color
SameInt == (HexOK(txt) /\ n = 8) => IntBytes(num[1] * 256 + num[2], num[3] * 256 + num[4]) = HexBytes(txt)
Error == Err([op |-> "hexs", ch |-> txt]) = IF HexOK(txt) THEN "none" ELSE "invalid"
=============================================================================
