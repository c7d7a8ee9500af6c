-------------------------------- MODULE Cases --------------------------------
(* Behaviours for the replay into the real library: for every property a
   systematic set of short command sequences over the operations, variants,
   types, borders and error causes the specification distinguishes.  TLC
   enumerates them and prints each as the driver's command text; the recorded
   results are checked against the specification like every other history.
   Real numbers are written in micro; a last digit of 1 or 9 stands for the
   next larger or smaller representable number.                              *)
EXTENDS Tables, Colors, FiniteSets
CONSTANTS Prop, Deep
VARIABLES word

RECURSIVE InOrder(_)
InOrder(T) == IF T = {} THEN <<>> ELSE LET x == CHOOSE x \in T : TRUE IN <<x>> \o InOrder(T \ {x})
Cmd(op, f, s, k, p) == [op |-> op, f |-> f, s |-> s, k |-> k, p |-> p, x |-> ""]
TextCmd(op, s, k, x) == [op |-> op, f |-> "-", s |-> s, k |-> k, p |-> <<>>, x |-> x]
RECURSIVE Join(_, _, _)
Join(q, n, r) == IF n > Len(q) THEN r ELSE Join(q, n + 1, r \o " " \o ToString(q[n]))
Line(c) == c.op \o " " \o c.f \o Join(c.s, 1, "") \o "|" \o Join(c.k, 1, "") \o "|" \o Join(c.p, 1, "") \o "|" \o c.x
RECURSIVE Text(_, _)
Text(w, n) == IF n > Len(w) THEN "" ELSE Line(w[n]) \o (IF n < Len(w) THEN "~" ELSE "") \o Text(w, n + 1)
Infv == 2000000000
NaNv == 2000000001

-----------------------------------------------------------------------------
(* The store the behaviours start from: slots 1..15 and 16..30 hold two colors
   of every type under definition 1, slots 31..45 those of definition 2.      *)
Ix(t) == CHOOSE i \in 1..15 : AllTypes[i] = t
Pal == [A |-> <<800000, 400000, 200000>>, B |-> <<100000, 500000, 900000>>, C |-> <<300000, 700000, 600000>>]
CompsOf(t, q) ==
  LET v == Pal[q] IN
  CASE t = "RGB_TRUE" -> [i \in 1..3 |-> (v[i] \div 4000) * U]
    [] t = "RGB_DEEP" -> v
    [] t = "GREY_TRUE" -> <<(v[1] \div 4000) * U>>
    [] t = "GREY_DEEP" -> <<v[1]>>
    [] t = "CMYK" -> <<v[1], v[2], v[3], v[3] \div 2>>
    [] t \in CylTypes -> <<v[1] * 400, v[2], v[3] + 50000>>
    [] t = "XYZ" -> <<v[1] \div 2, v[2], v[3]>>
    [] t = "XYY" -> <<250000 + v[1] \div 10, 200000 + v[2] \div 10, v[3]>>
    [] t \in {"CIELUV", "LAB"} -> <<v[1] * 90, (v[2] - 450000) * 60, (v[3] - 500000) * 60>>
    [] OTHER -> <<v[1] * 90, v[2] * 50, v[3] * 380>>
AlphaIn(t, a) == a * AlphaScale(t)
New(s, t, d, c, a) == Cmd("new", t, <<s>>, <<d>>, Append(c, AlphaIn(t, a)))
Prologue ==
  <<Cmd("wp", "D65_2", <<>>, <<>>, <<>>), Cmd("wp", "D50_2", <<>>, <<>>, <<>>), Cmd("wp", "A_2", <<>>, <<>>, <<>>), Cmd("wp", "F11_10", <<>>, <<>>, <<>>),
    Cmd("gm", "gamma2_2", <<>>, <<>>, <<>>), Cmd("gm", "sRGB", <<>>, <<>>, <<>>), Cmd("gm", "gamma1_8", <<>>, <<>>, <<>>),
    Cmd("def", "sRGB", <<>>, <<>>, <<>>), Cmd("def", "adobeRGB", <<>>, <<>>, <<>>), Cmd("def", "custom", <<>>, <<2, 1>>, <<640000, 330000, 300000, 600000, 150000, 60000>>)>>
  \o [i \in 1..15 |-> New(i, AllTypes[i], 1, CompsOf(AllTypes[i], "A"), 800000)]
  \o [i \in 1..15 |-> New(15 + i, AllTypes[i], 1, CompsOf(AllTypes[i], "B"), 600000)]
  \o [i \in 1..15 |-> New(30 + i, AllTypes[i], 2, CompsOf(AllTypes[i], "C"), U)]
A(t) == Ix(t)
B(t) == 15 + Ix(t)
C(t) == 30 + Ix(t)
Out == 60
One(S) == {<<c>> : c \in S}

-----------------------------------------------------------------------------
(* Vocabulary                                                                *)
SepModes == {"normal", "multiply", "screen", "overlay", "darken", "lighten", "color_dodge", "linear_dodge", "color_burn", "linear_burn", "hard_light", "soft_light",
             "vivid_light", "linear_light", "pin_light", "hard_mix", "difference", "subtract", "divide", "plus_lighter", "plus_darker", "exclusion"}
HcyModes == {"hue", "saturation", "color", "luminosity"}
Modes == SepModes \cup HcyModes \cup {"dissolve"}
Pds == {"src", "dest", "atop", "dest_atop", "over", "dest_over", "in", "dest_in", "out", "dest_out", "x_or", "clear"}
Cats == {"von_kries", "bradford", "bradford_s", "xyz_scale", "sharp", "cmccat97_s", "cmccat97", "cmccat2000_s", "cmccat2000", "cat02_s", "cat02"}
DeepTypes == Types \ XyzTypes
\* values of component i that meet its borders
Borders(t, i) ==
  LET a == Lo(t, i) * U b == Hi(t, i) * U m == (Lo(t, i) + Hi(t, i)) * (U \div 2) IN
  {a, b, m, a - 1000, b + 1000, a - 100000000, b + 100000000, Infv, -Infv, NaNv, ObjLo(t) * U, ObjHi(t) * U, b - 1, b + 1, m + 250000}
  \cup (IF i = Hue(t) THEN {360 * U, 359500000, 359 * U + 1, 360 * U - 1, 361 * U, -U, 720 * U, -360 * U, 1000 * U, -719500000} ELSE {})
  \cup (IF a = 0 THEN {} ELSE {a - 1, a + 1})
\* component values that matter to the conversions
Steps(t, i) ==
  CASE i = Hue(t) -> {0, 60 * U, 120 * U, 180 * U, 240 * U, 300 * U, 359 * U} \cup (IF Deep THEN {30 * U, 90 * U, 150 * U, 210 * U, 270 * U, 330 * U} ELSE {})
    [] t \in TrueTypes -> {0, U, 128 * U, 254 * U, 255 * U}
    [] t = "XYZ" -> {0, 4000, 500000, U}
    [] t = "XYY" -> IF i = 3 THEN {0, 5000, 500000, U} ELSE {0, 312700, 400000}
    [] t \in {"LAB", "CIELUV"} -> IF i = 1 THEN {0, 5 * U, 8 * U, 9 * U, 50 * U, 100 * U} ELSE {-60 * U, 0, 40 * U}
    [] t \in LchTypes -> IF i = 1 THEN {0, 5 * U, 9 * U, 50 * U, 100 * U} ELSE {0, 30 * U, 100 * U}
    [] OTHER -> {0, 500000, U} \cup (IF Deep THEN {1000, 200000, 800000, 990000} ELSE {})
Tuples(t) ==
  LET S(i) == Steps(t, i) IN
  CASE NC(t) = 1 -> {<<x>> : x \in S(1)}
    [] NC(t) = 4 -> {<<x, y, z, k>> : x \in {0, 500000, U}, y \in {0, 500000}, z \in {0, U}, k \in {0, 500000, U}}
    [] t = "RGB_TRUE" -> {<<x, y, z>> : x \in {0, 128 * U, 255 * U}, y \in {0, 128 * U, 255 * U}, z \in {0, 128 * U, 255 * U}}
    [] OTHER -> {<<x, y, z>> : x \in S(1), y \in S(2), z \in S(3)}
Tests(s, ts) == LET q == InOrder(ts) IN [n \in 1..Len(q) |-> Cmd("conv", q[n], <<Out, s>>, <<0>>, <<>>)]
\* presets appended to the store: definitions 4.., white points 5.., gamma curves 6..
DefNames == InOrder(DOMAIN SpacesTable)
WhiteNames == InOrder(DOMAIN Whites)
GammaNames == <<"gamma1_8", "gamma2_2", "gamma2_6", "gamma2_8", "sRGB", "gammaAdobe", "gammaRomm", "gammaUHDTV">>
DefsPro == [i \in 1..Len(DefNames) |-> Cmd("def", DefNames[i], <<>>, <<>>, <<>>)]
PresetIds == {3 + i : i \in 1..Len(DefNames)}
WideIds == {3 + i : i \in {j \in 1..Len(DefNames) : DefNames[j] # "cieXYZ"}}
Weights == {0, 250000, U} \cup (IF Deep THEN {1, 100000, 500000, 700000, 999999} ELSE {})
BadWeights == {-100000, U + 1, 2 * U, Infv, -Infv}
ArithP(op, x) == IF op = "add" THEN <<x, U - x>> ELSE <<x>>
Arith == {"add", "mix", "sub"}

-----------------------------------------------------------------------------
W01(z_) == UNION {UNION {
     {<<New(Out, t, 1, [CompsOf(t, "A") EXCEPT ![i] = x], 500000), Cmd("read", "-", <<Out>>, <<>>, <<>>)>> : x \in Borders(t, i)}
     \cup {<<Cmd("setc", "-", <<A(t)>>, <<i - 1>>, <<x>>)>> : x \in Borders(t, i)}
     \cup {<<Cmd("gset", "-", <<B(t)>>, <<i - 1>>, <<x>>)>> : x \in Borders(t, i)} : i \in 1..NC(t)}
   \cup {<<New(Out, t, 1, CompsOf(t, "A"), 0), Cmd("alpha", "-", <<Out>>, <<>>, <<IF Abs(x) < 8000000 THEN AlphaIn(t, x) ELSE x>>), Cmd("read", "-", <<Out>>, <<>>, <<>>)>>
         : x \in {0, 500000, U, -1000, U + 1000, 5 * U, Infv, -Infv, NaNv}}
   \cup {<<New(Out, t, 1, CompsOf(t, "A"), IF Abs(x) < 8000000 THEN x ELSE 0)>> : x \in {0, 500000, U, -1000, U + 1000, 5 * U}} : t \in Types}
W01b(z_) == UNION {UNION {{<<New(Out, t, 1, [CompsOf(t, "A") EXCEPT ![i] = x, ![NC(t)] = y], 500000), Cmd("read", "-", <<Out>>, <<>>, <<>>)>> : x \in Borders(t, i), y \in Borders(t, NC(t))} : i \in 1..(NC(t) - 1)} : t \in Types}
W02(z_) == UNION {
     {<<Cmd("copy", "-", <<Out, A(t)>>, <<>>, <<>>), Cmd("eq", "-", <<Out, A(t)>>, <<>>, <<>>), Cmd("setc", "-", <<Out>>, <<i - 1>>, <<(Lo(t, i) + Hi(t, i)) * (U \div 4)>>),
        Cmd("eq", "-", <<Out, A(t)>>, <<>>, <<>>), Cmd("assign", "-", <<Out, A(t)>>, <<>>, <<>>), Cmd("eq", "-", <<A(t), Out>>, <<>>, <<>>)>> : i \in 1..NC(t)}
     \cup {<<Cmd("copy", "-", <<Out, A(t)>>, <<>>, <<>>), Cmd("alpha", "-", <<Out>>, <<>>, <<AlphaIn(t, 100000)>>), Cmd("eq", "-", <<Out, A(t)>>, <<>>, <<>>),
             Cmd("bassign", "-", <<Out, C(t)>>, <<>>, <<>>), Cmd("eq", "-", <<Out, C(t)>>, <<>>, <<>>), Cmd("setdef", "-", <<Out>>, <<3>>, <<>>), Cmd("eq", "-", <<Out, C(t)>>, <<>>, <<>>),
             Cmd("assign", "-", <<Out, B(t)>>, <<>>, <<>>), Cmd("assign", "-", <<Out, Out>>, <<>>, <<>>), Cmd("bassign", "-", <<Out, Out>>, <<>>, <<>>)>>}
     \cup {<<Cmd("plus", "-", <<62, A(t), B(t)>>, <<>>, <<>>), Cmd("base", t, <<Out, 62>>, <<>>, <<>>), Cmd("eq", "-", <<Out, 62>>, <<>>, <<>>), Cmd("copy", "-", <<61, 62>>, <<>>, <<>>),
             Cmd("plus", "-", <<62, A(t), A(t)>>, <<>>, <<>>), Cmd("plus", "-", <<63, 62, C(t)>>, <<>>, <<>>), Cmd("base", t, <<Out, 63>>, <<>>, <<>>)>>}
     \cup {<<New(Out, t, 1, CompsOf(t, "A"), a), Cmd("amul", "-", <<Out>>, <<>>, <<>>), Cmd("adiv", "-", <<Out>>, <<>>, <<>>), Cmd("adiv", "-", <<Out>>, <<>>, <<>>), Cmd("read", "-", <<Out>>, <<>>, <<>>)>>
            : a \in {0, 4000, 250000, 500000, U}}
     \cup One({Cmd("get", "-", <<A(t)>>, <<i>>, <<>>) : i \in -1..(NC(t) + 1)}) : t \in Types}
   \cup One({Cmd("base", t, <<Out, A(T)>>, <<>>, <<>>) : t \in Types, T \in Types})
   \cup One({Cmd("eq", "-", <<A(t), x>>, <<>>, <<>>) : t \in Types, x \in {B(T) : T \in Types} \cup {C(T) : T \in Types}})
   \cup One({Cmd("plus", "-", <<62, A(t), B(T)>>, <<>>, <<>>) : t \in Types, T \in Types})
\* every way a color of type t comes into being, leaving it in slot Out
Routes(t) == {<<New(Out, t, 1, CompsOf(t, "A"), 500000)>>, <<Cmd("copy", "-", <<Out, A(t)>>, <<>>, <<>>)>>, <<Cmd("base", t, <<Out, A(t)>>, <<>>, <<>>)>>,
              <<Cmd("conv", t, <<Out, A("RGB_DEEP")>>, <<0>>, <<>>)>>, <<Cmd("conv", t, <<Out, A("RGB_TRUE")>>, <<1>>, <<>>)>>, <<Cmd("conv", t, <<Out, C("LAB")>>, <<1>>, <<>>)>>,
              <<Cmd("copy", "-", <<Out, B(t)>>, <<>>, <<>>), Cmd("assign", "-", <<Out, A(t)>>, <<>>, <<>>)>>, <<Cmd("copy", "-", <<Out, B(t)>>, <<>>, <<>>), Cmd("bassign", "-", <<Out, A(t)>>, <<>>, <<>>)>>,
              <<Cmd("mix", "typed", <<Out, A(t), B(t)>>, <<1>>, <<500000>>)>>, <<Cmd("blend", "multiply", <<Out, A(t), B(t)>>, <<0, 0>>, <<>>)>>, <<Cmd("adapt", "bradford", <<Out, A(t)>>, <<2>>, <<>>)>>,
              <<Cmd("plus", "-", <<61, A(t), B(t)>>, <<>>, <<>>), Cmd("base", t, <<Out, 61>>, <<>>, <<>>)>>}
   \cup (IF t = "RGB_TRUE" THEN {<<TextCmd("hexs", <<Out>>, <<1>>, "80c0a010")>>, <<TextCmd("hexs", <<Out>>, <<1>>, "#c0a010")>>, <<Cmd("hexi", "-", <<Out>>, <<1, 32960, 40976>>, <<>>)>>} ELSE {})
   \cup (IF t \in {"RGB_TRUE", "RGB_DEEP"} THEN {<<Cmd("new", t, <<Out>>, <<1, 1>>, <<IF t = "RGB_TRUE" THEN 90 * U ELSE 350000, AlphaIn(t, 500000)>>)>>} ELSE {})
Uses(t) == UNION {{<<Cmd("gset", "-", <<Out>>, <<i - 1>>, <<x>>)>>, <<Cmd("setc", "-", <<Out>>, <<i - 1>>, <<x>>)>>} : i \in 1..NC(t), x \in {1000 * U, -1000 * U}}
   \cup {<<Cmd("cgam", "-", <<Out>>, <<>>, <<>>)>>, <<Cmd("cigam", "-", <<Out>>, <<>>, <<>>)>>, <<Cmd("alpha", "-", <<Out>>, <<>>, <<AlphaIn(t, 2 * U)>>)>>, <<Cmd("amul", "-", <<Out>>, <<>>, <<>>), Cmd("adiv", "-", <<Out>>, <<>>, <<>>)>>,
          <<Cmd("plus", "-", <<61, Out, Out>>, <<>>, <<>>), Cmd("base", t, <<62, 61>>, <<>>, <<>>)>>, <<Cmd("copy", "-", <<61, Out>>, <<>>, <<>>), Cmd("eq", "-", <<61, Out>>, <<>>, <<>>), Cmd("eq", "-", <<Out, A(t)>>, <<>>, <<>>)>>}
\* a sum is a plain color_base
MadePlain == UNION {{<<Cmd("plus", "-", <<Out, A(t), B(t)>>, <<>>, <<>>)>> \o u : u \in {v \in Uses(t) : v[1].op # "setc"}} : t \in Types}
Made == MadePlain \cup UNION {{r \o u \o <<Cmd("read", "-", <<Out>>, <<>>, <<>>)>> : r \in Routes(t), u \in Uses(t)} : t \in Types}
Digits == {"0", "7", "a", "f", "A", "F", "g", "G", "-", " ", "#", "x"}
Twos == {"00", "7F", "fF", "a", "4g", "-1"}
RECURSIVE Repeat(_, _)
Repeat(c, n) == IF n <= 0 THEN "" ELSE c \o Repeat(c, n - 1)
W03(z_) == One({TextCmd("hexs", <<Out>>, <<1>>, h \o Repeat(c, n)) : h \in {"", "#"}, c \in Digits, n \in 0..10})
   \cup One({TextCmd("hexs", <<Out>>, <<2>>, h \o Repeat("1", p) \o c \o Repeat("9", n - p - 1)) : h \in {"", "#"}, c \in Digits \cup {"9", "/", ":", "@", "`", "."}, n \in {6, 8}, p \in 0..5})
   \cup One({TextCmd("hexs", <<Out>>, <<2>>, h \o Repeat("3", p) \o c \o Repeat("9", 8 - p - 1)) : h \in {"", "#"}, c \in Digits, p \in {6, 7}})
   \cup (IF Deep THEN One({TextCmd("hexs", <<Out>>, <<2>>, h \o x \o y \o z \o v) : h \in {"", "#"}, x \in Twos, y \in Twos, z \in Twos, v \in Twos \cup {""}}) ELSE {})
   \cup One({Cmd("hexi", "-", <<Out>>, <<1, 256 * a + r, 256 * g + b>>, <<>>) : a \in {0, 1, 127, 128, 255}, r \in {0, 127, 128, 255}, g \in {0, 128, 255}, b \in {0, 1, 255}})
W04(z_) == {<<Cmd("conv", T, <<Out, x>>, <<0>>, <<>>), Cmd("conv", T, <<61, x>>, <<1>>, <<>>), Cmd("near", "-", <<Out, 61>>, <<4>>, <<>>)>> : T \in Types, x \in {A(t) : t \in Types} \cup {C(t) : t \in Types}}
   \cup {<<New(59, t, 3, CompsOf(t, "B"), a)>> \o Tests(59, Types) : t \in Types, a \in {0, 3921, 500000, U}}
W05(z_) == UNION {{<<New(59, t, 1, c, U)>> \o Tests(59, IF t \in CylTypes THEN {"RGB_DEEP"} ELSE DeepTypes \ {t}) : c \in Tuples(t)} : t \in DeepTypes}
   \cup UNION {{<<New(59, t, 1, c, U)>> \o Tests(59, (CylTypes \cup {"CMYK", "GREY_DEEP"}) \ {t}) : c \in {x \in Tuples(t) : x[1] % (120 * U) = 0 /\ x[2] # 0}} : t \in CylTypes}
W06(z_) == UNION {{<<New(59, t, d, c, U)>> \o Tests(59, XyzTypes \ {t}) : c \in Tuples(t)} : t \in XyzTypes \ LchTypes, d \in (IF Deep THEN {1, 2, 3} ELSE {3})}
   \cup UNION {{<<New(59, t, d, c, U)>> \o Tests(59, IF t = "LCH_AB" THEN {"LAB", "XYZ"} ELSE {"CIELUV", "XYZ"}) : c \in Tuples(t)} : t \in LchTypes, d \in {1}}
   \cup UNION {{<<New(59, "RGB_DEEP", d, c, U)>> \o Tests(59, XyzTypes) : c \in Tuples("RGB_DEEP")} : d \in 1..3}
   \cup {<<Cmd("conv", "RGB_DEEP", <<Out, x>>, <<0>>, <<>>), Cmd("conv", "RGB_TRUE", <<Out, x>>, <<0>>, <<>>)>> : x \in {A(t) : t \in XyzTypes} \cup {B(t) : t \in XyzTypes} \cup {C(t) : t \in XyzTypes}}
W06b(z_) == UNION {{<<New(59, "RGB_DEEP", d, c, U)>> \o Tests(59, XyzTypes) \o <<New(59, "LAB", d, <<60 * U, c[1] * 20, c[3] * 20>>, U)>> \o Tests(59, {"XYZ", "LCH_AB", "RGB_DEEP", "XYY"})
                : c \in {CompsOf("RGB_DEEP", q) : q \in {"A", "B"}} \cup {<<U, U, U>>, <<500000, 500000, 500000>>} \cup (IF Deep THEN Tuples("RGB_DEEP") ELSE {})} : d \in PresetIds}
W07b(z_) == UNION {{<<New(58, "RGB_DEEP", d, c, U), Cmd("conv", t, <<59, 58>>, <<0>>, <<>>), Cmd("conv", "RGB_DEEP", <<60, 59>>, <<0>>, <<>>), Cmd("near", t, <<58, 60>>, <<7>>, <<>>)>>
               : c \in {CompsOf("RGB_DEEP", q) : q \in (IF Deep THEN {"A", "B", "C"} ELSE {"A", "C"})}, t \in XyzTypes} : d \in WideIds}
W07(z_) == UNION {{<<New(58, "RGB_DEEP", d, c, U), Cmd("conv", t, <<59, 58>>, <<0>>, <<>>), Cmd("conv", "RGB_DEEP", <<Out, 59>>, <<0>>, <<>>), Cmd("near", t, <<58, Out>>, <<7>>, <<>>)>>
               : c \in Tuples("RGB_DEEP"), t \in XyzTypes \cup {"CMYK", "HSI", "HSV", "HSL", "HCY"}} : d \in (IF Deep THEN {1, 2, 3} ELSE {1})}
   \cup {<<New(58, "RGB_TRUE", 1, <<x * U, y * U, z * U>>, U), Cmd("conv", t, <<59, 58>>, <<0>>, <<>>), Cmd("conv", "RGB_TRUE", <<Out, 59>>, <<0>>, <<>>), Cmd("near", t, <<58, Out>>, <<7>>, <<>>)>>
               : x \in {1, 254}, y \in {0, 77}, z \in {3, 200}, t \in XyzTypes \cup {"RGB_DEEP", "CMYK", "HSI", "HSV", "HSL", "HCY"}}
\* tristimulus values on the borders of their range
Edges == {<<x, y, z>> : x \in {0, 10, 20000, 400000}, y \in {0, 4000, 100000, 400000}, z \in {0, 10, 20000, 400000}}
W07c(z_) == UNION {{<<New(58, "XYZ", d, c, U)>> \o Tests(58, {"CIELUV", "LAB", "XYY", "LCH_UV", "LCH_AB", "RGB_DEEP"}) \o <<Cmd("conv", t, <<59, 58>>, <<0>>, <<>>), Cmd("conv", "XYZ", <<60, 59>>, <<0>>, <<>>), Cmd("near", t, <<58, 60>>, <<7>>, <<>>)>>
               : c \in Edges, t \in XyzTypes \ {"XYZ"}} : d \in {1, 3}}
Ladder(t) == CASE t = "LAB" -> {<<l * U, a * U, b * U>> : l \in {0, 1, 8, 50, 100}, a \in {-128, -40, 0, 3, 128}, b \in {-128, -40, 0, 3, 128}}
               [] t = "CIELUV" -> {<<l * U, a * U, b * U>> : l \in {0, 1, 8, 50, 100}, a \in {-100, -30, 0, 5, 100}, b \in {-100, -30, 0, 5, 100}}
               [] t = "XYY" -> {<<x, y, z>> : x \in {0, 10000, 300000, 600000, U}, y \in {0, 1000, 100000, 400000, U}, z \in {0, 1000, 200000, U, 100 * U}}
               [] t = "XYZ" -> {<<x, y, z>> : x \in {0, U, 100 * U}, y \in {0, U, 100 * U}, z \in {0, U, 100 * U}}
               [] t \in {"RGB_DEEP", "RGB_TRUE", "CMYK", "GREY_DEEP", "GREY_TRUE"} -> Tuples(t)
               [] t \in CylTypes -> {<<h, x, y>> : h \in {0, 60 * U, 179 * U, 240 * U, 359 * U}, x \in {0, IF t = "HCY" THEN 20000 ELSE 1000, 500000, U}, y \in {0, 1000, 500000, 999000, U}}
               [] OTHER -> {<<l * U, a * U, b * U>> : l \in {0, 1, 8, 50, 100}, a \in {0, 1, 30, 100}, b \in {0, 45, 180, 359}}
W06c(z_) == UNION {{<<New(59, t, 1, c, U)>> \o Tests(59, (XyzTypes \ {t}) \cup {"RGB_DEEP"}) : c \in Ladder(t)} : t \in XyzTypes}
W08(z_) == {<<New(57, "RGB_DEEP", 1, CompsOf("RGB_DEEP", q), U), Cmd("conv", a, <<58, 57>>, <<0>>, <<>>), Cmd("conv", c, <<59, 58>>, <<0>>, <<>>), Cmd("conv", b, <<60, 58>>, <<0>>, <<>>),
          Cmd("conv", c, <<61, 60>>, <<0>>, <<>>), Cmd("near", b, <<58, 59, 61>>, <<8>>, <<>>)>> : q \in (IF Deep THEN {"A", "B"} ELSE {"A"}), a \in (IF Deep THEN Types ELSE {"RGB_DEEP", "HSL", "LAB", "XYZ"}), b \in Types, c \in Types}
\* colors no RGB color stands for, between the types that need none
Far(t) == CASE t = "LAB" -> {<<92 * U, -60 * U, 40 * U>>, <<50 * U, 100 * U, -90 * U>>, <<20 * U, -60 * U, 10 * U>>} [] t = "XYZ" -> {<<500000, 900000, 30000>>, <<900000, 500000, 100000>>, <<200000, 100000, U>>}
            [] t = "CIELUV" -> {<<90 * U, -80 * U, 20 * U>>, <<40 * U, 120 * U, -60 * U>>} [] t = "XYY" -> {<<200000, 700000, 600000>>, <<600000, 300000, 900000>>} [] OTHER -> {<<85 * U, 110 * U, 150 * U>>, <<30 * U, 60 * U, 300 * U>>}
W08b(z_) == UNION {UNION {{<<New(58, a, 1, f, U), Cmd("conv", c, <<59, 58>>, <<0>>, <<>>), Cmd("conv", b, <<60, 58>>, <<0>>, <<>>), Cmd("conv", c, <<61, 60>>, <<0>>, <<>>), Cmd("near", b, <<58, 59, 61>>, <<8>>, <<>>)>>
               : f \in Far(a) \cup (IF Deep THEN Tuples(a) ELSE {})} : a \in XyzTypes} : b \in XyzTypes, c \in Types}
Flags == {<<2, 2>>, <<0, 0>>, <<1, 0>>, <<0, 1>>}
Levels == {0, 250000, 500000, 750000, U} \cup (IF Deep THEN {1000, 100000, 400000, 499000, 501000, 600000, 900000, 999000} ELSE {})
Pair(x, y, a, b) == <<New(58, "RGB_DEEP", 1, x, a), New(59, "RGB_DEEP", 1, y, b)>>
Blends(fl) == LET q == InOrder(Modes) IN [n \in 1..Len(q) |-> Cmd("blend", q[n], <<Out, 58, 59>>, fl, <<>>)]
PdsAll == LET q == InOrder(Pds) IN [n \in 1..Len(q) |-> Cmd("pd", q[n], <<Out, 58, 59>>, <<>>, <<>>)]
W09(z_) == {Pair(<<x, x, Min(x, y)>>, <<y, Min(U, y + 1000), y>>, U, U) \o Blends(<<2, 2>>) : x \in Levels, y \in Levels}
   \cup {Pair(CompsOf("RGB_DEEP", "A"), CompsOf("RGB_DEEP", "B"), a, b) \o Blends(fl) : a \in {0, 500000, U}, b \in {0, 300000, U}, fl \in Flags}
   \cup One({Cmd("blend", m, <<Out, A(t), B(T)>>, <<2, 2>>, <<>>) : m \in Modes, t \in Types, T \in (IF Deep THEN Types ELSE {"RGB_TRUE", "HSV", "LAB"})})
   \cup One({Cmd("blend", "custom", <<Out, A(t), B(t)>>, <<0, 1, n>>, <<>>) : t \in Types, n \in 0..6})
W10(z_) == {Pair(CompsOf("RGB_DEEP", "A"), CompsOf("RGB_DEEP", "B"), a, b) \o PdsAll : a \in {0, 300000, 500000, U} \cup (IF Deep THEN {1000, 100000, 900000} ELSE {}), b \in {0, 200000, 700000, U} \cup (IF Deep THEN {2000, 400000, 999000} ELSE {})}
   \cup One({Cmd("pd", m, <<Out, A(t), B(T)>>, <<>>, <<>>) : m \in Pds, t \in Types, T \in Types})
W11(z_) == One({Cmd(op, f, <<Out, A(t), B(t)>>, <<inc>>, ArithP(op, x)) : op \in Arith, f \in {"typed", "base"}, t \in Types, inc \in 0..2, x \in Weights})
   \cup One({Cmd(op, "base", <<Out, A(t), B(T)>>, <<1>>, ArithP(op, 500000)) : op \in Arith, t \in Types, T \in Types})
   \cup One({Cmd("avg", t, <<Out>> \o l, <<inc>>, <<>>) : t \in {"GREY_DEEP"}, l \in {<<A("GREY_DEEP"), B("GREY_DEEP")>>}, inc \in 0..1})
   \cup One(UNION {{Cmd("avg", t, <<Out>> \o l, <<inc>>, <<>>) : l \in {<<A(t)>>, <<A(t), B(t)>>, <<B(t), A(t)>>, <<A(t), B(t), B(t)>>, <<A(t), A(t), A(t), B(t)>>, <<A(t), B(t), A(t), B(t), B(t)>>, <<B(t), A(t), A(t), B(t), B(t), A(t), A(t), A(t)>>, [n \in 1..15 |-> IF n % 3 = 0 THEN B(t) ELSE A(t)], [n \in 1..33 |-> IF n % 3 = 0 THEN A(t) ELSE B(t)]}, inc \in 0..1} : t \in Types})
   \cup {<<New(58, t, 1, CompsOf(t, "A"), a), New(59, t, 1, CompsOf(t, "C"), b)>> \o <<Cmd("add", "typed", <<Out, 58, 59>>, <<1>>, <<x, x>>), Cmd("mix", "typed", <<Out, 58, 59>>, <<1>>, <<x>>), Cmd("sub", "base", <<Out, 58, 59>>, <<1>>, <<x>>),
           Cmd("avg", t, <<Out, 58, 59>>, <<1>>, <<>>)>> : t \in Types, a \in {0, U}, b \in {0, 400000}, x \in {300000, U}}
Null(x, y, t) == {<<0, y>>, <<x, 0>>, <<0, 0>>, <<x, C(t)>>, <<C(t), x>>}
MatDef(kind, b) == <<Cmd(kind, "newi", <<b + 1>>, <<1, 1>>, <<2 * U>>), Cmd(kind, "newi", <<b + 2>>, <<2, 3>>, <<3 * U>>), Cmd(kind, "newi", <<b + 3>>, <<3, 2>>, <<U>>), Cmd(kind, "newi", <<b + 4>>, <<3, 3>>, <<-U>>)>>
Kinds == {<<"mf", 0>>, <<"mi", 100>>, <<"md", 200>>}
Shape == <<<<1, 1>>, <<2, 3>>, <<3, 2>>, <<3, 3>>>>
W12(z_) == One(UNION {{Cmd("blend", m, <<Out>> \o p, fl, <<>>) : m \in Modes, fl \in {<<2, 2>>, <<0, 1>>}, p \in Null(A(t), B(t), t)} : t \in {"RGB_DEEP", "LAB"}})
   \cup One(UNION {{Cmd("blend", "custom", <<Out>> \o p, <<0, 1, n>>, <<>>) : n \in 0..6, p \in Null(A(t), B(t), t)} : t \in {"RGB_DEEP", "HSV"}})
   \cup One(UNION {{Cmd("pd", m, <<Out>> \o p, <<>>, <<>>) : m \in Pds, p \in Null(A(t), B(t), t)} : t \in {"RGB_DEEP", "LAB", "CMYK"}})
   \cup One({Cmd("add", f, <<Out, A(t), B(t)>>, <<1>>, p) : f \in {"typed", "base"}, t \in Types, p \in {<<x, U>> : x \in BadWeights} \cup {<<U, x>> : x \in BadWeights} \cup {<<0, U>>, <<U, 0>>}})
   \cup One({Cmd(op, f, <<Out, A(t), B(t)>>, <<1>>, <<x>>) : op \in {"mix", "sub"}, f \in {"typed", "base"}, t \in Types, x \in BadWeights \cup {0, U}})
   \cup One({Cmd("avg", t, <<Out>>, <<i>>, <<>>) : t \in Types, i \in 0..1})
   \cup One(UNION {{Cmd("get", "-", <<A(t)>>, <<i>>, <<>>) : i \in {-2147483647, -1, 0, NC(t) - 1, NC(t), NC(t) + 1, 2147483647}} : t \in Types})
   \cup One(UNION {{Cmd("gset", "-", <<B(t)>>, <<i>>, p) : i \in {-2147483647, -1, 0, NC(t) - 1, NC(t), NC(t) + 1, 2147483647}, p \in {<<500000>>, <<500000, U, 0>>}} : t \in Types})
   \cup One({Cmd("base", t, <<Out, A(T)>>, <<>>, <<>>) : t \in Types, T \in Types})
   \cup One({Cmd("plus", "-", <<62, A(t), B(T)>>, <<>>, <<>>) : t \in Types, T \in Types})
   \cup One({Cmd("comb", "combination", <<A(t), 50>>, <<n>>, <<>>) : t \in {"RGB_DEEP", "HSL"}, n \in {-2147483647, -1, 0, 1, 2, 3, 360, 361, 2147483647}})
   \cup One({Cmd("comb", f, <<A(t), 50>>, <<>>, <<x>>) : f \in {"analogous", "split"}, t \in {"RGB_DEEP", "LAB"}, x \in {0, 1000, 119999999, 120 * U, 120 * U + 1, 121 * U, 500 * U}})
   \cup One({Cmd("comb", "monochromatic", <<A(t), 50>>, <<m, n>>, <<x>>) : t \in {"RGB_DEEP", "CMYK"}, m \in {-1, 0, 1, 2, 3}, n \in {-1, 0, 1, 2}, x \in {-1000, 0, 500000, U, U + 1}})
   \cup UNION {{MatDef(k[1], k[2]) \o <<Cmd(k[1], f, <<k[2] + j>>, <<r, c>>, IF f = "set" THEN <<U>> ELSE <<>>)>> : f \in {"get", "cget", "set"}, r \in {-1, 0, Shape[j][1] - 1, Shape[j][1]}, c \in {-1, 0, Shape[j][2] - 1, Shape[j][2]}} : k \in Kinds, j \in {2}}
   \cup {MatDef(k[1], k[2]) \o <<Cmd(k[1], f, <<k[2] + 9, k[2] + i, k[2] + j>>, <<>>, <<>>)>> : f \in {"plus", "minus"}, i \in 1..4, j \in 1..4, k \in Kinds}
DistFns == {<<"euclid2", <<>>>>, <<"euclid", <<>>>>, <<"weighted", <<>>>>, <<"cie76", <<>>>>, <<"cie94", <<>>>>, <<"cie00", <<>>>>, <<"cmc", <<>>>>}
Dq == IF Deep THEN {-90 * U, 0, 1 * U, 80 * U} ELSE {}
W13(z_) == One({Cmd("dist", fn[1], <<x, y>>, fn[2], <<>>) : fn \in DistFns, x \in {A(t) : t \in Types}, y \in {B(t) : t \in Types}})
   \cup One({Cmd("dist", fn[1], <<x, x>>, fn[2], <<>>) : fn \in DistFns, x \in {A(t) : t \in Types}})
   \cup One({Cmd("dist", f, <<A(t), C(t)>>, <<n>>, <<>>) : f \in {"euclid", "euclid2"}, t \in Types, n \in 0..14})
   \cup {<<New(58, "LAB", 1, <<l, x, y>>, U), New(59, "LAB", 1, <<m, z, 20 * U>>, U), Cmd("dist", "cmc", <<58, 59>>, <<>>, <<>>), Cmd("dist", "cmc", <<59, 58>>, <<>>, <<U, U>>), Cmd("dist", "cie94", <<58, 59>>, <<>>, <<>>), Cmd("dist", "cie00", <<58, 59>>, <<>>, <<>>), Cmd("dist", "cie76", <<59, 58>>, <<>>, <<>>)>>
         : l \in {10 * U, 17 * U, 60 * U} \cup (IF Deep THEN {0, 16 * U, 90 * U, 100 * U} ELSE {}), m \in {40 * U, 60 * U}, x \in {-40 * U, 30 * U} \cup Dq, y \in {-50 * U, 5 * U, 35 * U} \cup Dq, z \in {-30 * U, 25 * U} \cup Dq}
\* equal components, other definitions
W13c(z_) == UNION {{<<New(58, t, 1, CompsOf(t, q), U), New(59, t, d, CompsOf(t, q), U)>> \o [n \in 1..15 |-> Cmd("dist", IF n % 2 = 0 THEN "euclid" ELSE "euclid2", <<58, 59>>, <<n - 1>>, <<>>)]
                \o <<Cmd("dist", "cie76", <<58, 59>>, <<>>, <<>>), Cmd("dist", "cie94", <<58, 59>>, <<>>, <<>>), Cmd("dist", "cmc", <<58, 59>>, <<>>, <<>>), Cmd("dist", "weighted", <<58, 59>>, <<>>, <<>>), Cmd("dist", "cie00", <<58, 59>>, <<>>, <<>>)>>
                : q \in {"A", "B"}, d \in 2..3} : t \in Types}
\* hues on both sides of the wrap, with a chroma difference: the signs of the hue and rotation terms matter
Hues == {4300000, 35300000, 80700000, 120300000, 163500000, 164500000, 185200000, 215600000, 250400000, 290300000, 344500000, 345500000} \cup (IF Deep THEN {10 * U * i + 345000 : i \in 0..35} ELSE {})
W13b(z_) == {<<New(58, "LCH_AB", 1, <<50 * U, c, h>>, U), New(59, "LCH_AB", 1, <<52 * U, 70 * U - c, g>>, U), Cmd("dist", "cie00", <<58, 59>>, <<>>, <<>>), Cmd("dist", "cmc", <<58, 59>>, <<>>, <<>>)>> : h \in Hues, g \in Hues, c \in {30 * U, 40 * U}}
W14(z_) == One({Cmd("comb", f, <<x, 50>>, <<>>, <<>>) : f \in {"complimentary", "triplet", "quartet", "quintet"}, x \in {A(t) : t \in Types} \cup {B(t) : t \in Types} \cup {C(t) : t \in Types}})
   \cup One({Cmd("comb", "combination", <<x, 50>>, <<n>>, <<>>) : x \in {A(t) : t \in Types}, n \in {2, 3, 4, 5, 6, 7, 8, 11, 12, 360}})
   \cup One({Cmd("comb", f, <<x, 50>>, <<>>, <<d>>) : f \in {"analogous", "split"}, x \in {A(t) : t \in Types} \cup {C(t) : t \in Types}, d \in {-30 * U, U, 30 * U, 45500000, 90 * U, 120 * U}})
   \cup One({Cmd("comb", "monochromatic", <<x, 50>>, <<m, n>>, <<d>>) : x \in {A(t) : t \in Types}, m \in 0..2, n \in {1, 2, 5}, d \in {0, 100000, 400000}})
   \cup One({Cmd("comb", "monochromatic", <<x, 46>>, <<m, n>>, <<d>>) : x \in {A(t) : t \in Types}, m \in 0..2, n \in {13, 19}, d \in {20000, 100000}})
   \cup {<<New(59, "HSL", 1, <<h, 800000, l>>, U), Cmd("comb", "complimentary", <<59, 40>>, <<>>, <<>>), Cmd("comb", "triplet", <<59, 41>>, <<>>, <<>>), Cmd("comb", "analogous", <<59, 45>>, <<>>, <<30 * U>>), Cmd("comb", "split", <<59, 50>>, <<>>, <<30 * U>>)>>
         : h \in {0, 15 * U, 90 * U, 179 * U, 180 * U, 200 * U, 240 * U, 300 * U, 345 * U, 359 * U} \cup (IF Deep THEN {10 * U * i : i \in 0..35} ELSE {}), l \in {250000, 700000}}
Adjs == {"sat_rgb", "sat_hsl", "lum_rgb", "lum_hsl"}
Pcts == {-2 * U, -U, -500000, -100000, 0, 100000, 500000, U, 2 * U}
W15(z_) == {<<Cmd("adj", f, <<Out, x>>, <<>>, <<p>>), Cmd("copy", "-", <<61, x>>, <<>>, <<>>), Cmd("adjr", f, <<61>>, <<>>, <<p>>), Cmd("near", "-", <<Out, 61>>, <<4>>, <<>>)>>
         : f \in Adjs, x \in {A(t) : t \in Types}, p \in Pcts}
   \cup {<<New(59, "RGB_DEEP", 1, c, 700000), Cmd("adj", "sat_rgb", <<Out, 59>>, <<>>, <<p>>), Cmd("adj", "sat_hsl", <<Out, 59>>, <<>>, <<p>>), Cmd("adj", "lum_rgb", <<Out, 59>>, <<>>, <<p>>), Cmd("adj", "lum_hsl", <<Out, 59>>, <<>>, <<p>>)>>
         : c \in Tuples("RGB_DEEP"), p \in {-U, -300000, 300000, U} \cup (IF Deep THEN {-3 * U, -700000, 50000, 600000, 1400000} ELSE {})}
Dp == IF Deep THEN {50000, 200000, 600000, 1200000} ELSE {}
Degree(f) == IF f \in {"cmccat97", "cat02", "cmccat2000"} THEN <<U>> ELSE <<>>
W16(z_) == One({Cmd("adapt", f, <<Out, x>>, <<w>>, Degree(f)) : f \in Cats, x \in {A(t) : t \in Types}, w \in 2..4})
   \cup One({Cmd("adapt", f, <<Out, x>>, <<w>>, Degree(f)) : f \in Cats, x \in {C("RGB_DEEP"), B("XYZ"), B("LAB")}, w \in 1..4})
   \cup One({Cmd("adapt", f, <<Out, x>>, <<3>>, p) : f \in {"cmccat97", "cat02"}, x \in {A("XYZ"), B("RGB_DEEP")}, p \in {<<y>> : y \in {-U, 0, 500000, U, 1500000, 3 * U}} \cup {<<y, z>> : y \in {800000, U, 2 * U}, z \in {U, 20 * U, 400 * U}}})
   \cup One({Cmd("adapt", "cmccat2000", <<Out, x>>, <<3>>, p) : x \in {A("XYZ"), B("RGB_DEEP")}, p \in {<<y>> : y \in {-U, 0, 500000, U, 1500000, 3 * U}} \cup {<<y, z, v>> : y \in {800000, U, 2 * U}, z \in {20 * U, 400 * U}, v \in {20 * U, 300 * U}}})
   \cup {<<New(59, "XYZ", d, <<x, y, z>>, U), Cmd("adapt", "bradford", <<Out, 59>>, <<3>>, <<>>), Cmd("adapt", "cmccat97", <<Out, 59>>, <<3>>, <<U>>), Cmd("adapt", "cat02", <<Out, 59>>, <<4>>, <<700000>>), Cmd("adapt", "von_kries", <<Out, 59>>, <<4>>, <<>>), Cmd("adapt", "cmccat2000", <<Out, 59>>, <<4>>, <<700000>>)>>
         : d \in (IF Deep THEN 1..3 ELSE {1, 3}), x \in {0, 400000, 900000} \cup Dp, y \in {0, 300000, U} \cup Dp, z \in {0, 10000, 900000} \cup Dp}
\* from every white point to every other, white colors and others
WhitePro == [i \in 1..Len(WhiteNames) |-> Cmd("wp", WhiteNames[i], <<>>, <<>>, <<>>)]
   \o [i \in 1..Len(WhiteNames) |-> Cmd("def", "custom", <<>>, <<4 + i, 1>>, <<640000, 330000, 300000, 600000, 150000, 60000>>)]
\* white points of which only the chromaticity, or only the tristimulus, is that of a preset
HalfPro == LET d65 == Whites["D65_2"] d50 == Whites["D50_2"] IN
  <<Cmd("wp", "full", <<>>, <<>>, <<d65[1] \div 2, d65[2] \div 2, d65[3] \div 2, d65[4], d65[5]>>), Cmd("wp", "full", <<>>, <<>>, <<d65[1], d65[2], d65[3], d50[4], d50[5]>>),
    Cmd("wp", "full", <<>>, <<>>, <<d50[1], d50[2], d50[3], d65[4], d65[5]>>)>>
CatNames == InOrder(Cats)
White(i) == <<Whites[WhiteNames[i]][1], Whites[WhiteNames[i]][2], Whites[WhiteNames[i]][3]>>
W16c(z_) == One({Cmd("adapt", f, <<Out, x>>, <<4 + Len(WhiteNames) + w>>, Degree(f)) : f \in Cats, x \in {A("XYZ"), A("RGB_DEEP"), C("LAB")}, w \in 1..3})
W16b(z_) == UNION {{<<New(59, "XYZ", 3 + i, c[1], U)>> \o [j \in 1..Len(WhiteNames) |-> Cmd("adapt", CatNames[1 + ((i + j + c[2]) % Len(CatNames))], <<Out, 59>>, <<4 + j>>, Degree(CatNames[1 + ((i + j + c[2]) % Len(CatNames))]))]
               : c \in {<<White(i), 0>>, <<<<300000, 400000, 200000>>, 5>>} \cup (IF Deep THEN {<<White(i), n>> : n \in 1..10} ELSE {})} : i \in 1..Len(WhiteNames)}
-----------------------------------------------------------------------------
(* Sequences                                                                  *)
\* gamma curve 4 belongs to the behaviour; parts 1..7
GmOps == {Cmd("gmop", "add", <<>>, <<4, 3>>, <<>>), Cmd("gmop", "add", <<>>, <<4, 1>>, <<>>), Cmd("gmop", "add", <<>>, <<4, 0>>, <<>>), Cmd("gmop", "iset", <<>>, <<4, 0, 6, 0, 1>>, <<>>), Cmd("gmop", "iadd", <<>>, <<4, 2>>, <<>>), Cmd("gmop", "iadd", <<>>, <<4, 5>>, <<>>),
          Cmd("gmop", "set", <<>>, <<4, 5, 2, 4>>, <<>>), Cmd("gmop", "set", <<>>, <<4>>, <<>>), Cmd("gmop", "iset", <<>>, <<4, 6, 1>>, <<>>),
          Cmd("gmop", "remove", <<>>, <<4, 0>>, <<>>), Cmd("gmop", "remove", <<>>, <<4, 1>>, <<>>), Cmd("gmop", "iremove", <<>>, <<4, 0>>, <<>>), Cmd("gmop", "assign", <<>>, <<4, 5>>, <<>>)}
GmEval == <<Cmd("gmop", "eval", <<>>, <<4>>, <<150000>>), Cmd("gmop", "eval", <<>>, <<4>>, <<600000>>), Cmd("gmop", "eval", <<>>, <<4>>, <<1100000>>)>>
EqLists == {<<1, 3, 4>>, <<2, 3, 4>>, <<1, 5, 4>>, <<1, 3, 6>>, <<1, 3>>}
W17(z_) == {<<a, b>> \o GmEval : a \in GmOps, b \in GmOps} \cup (IF Deep THEN {<<a, b, c>> \o GmEval : a \in GmOps, b \in GmOps, c \in GmOps} ELSE {})
   \cup {<<Cmd("gmop", "set", <<>>, <<4, i, j>>, <<>>), Cmd("gmop", "iset", <<>>, <<4, j, i>>, <<>>), Cmd("gmop", "eval", <<>>, <<4>>, <<x>>)>> : i \in 0..7, j \in 0..7, x \in {0, 100000, 500000}}
   \cup One({Cmd("gmop", "eval", <<>>, <<k>>, <<x>>) : k \in {1, 2, 3, 5}, x \in {-500000, 0, 1000, 3130, 31308, 40450, 40451, 500000, U, 1500000}})
   \cup One({Cmd("gmop", "round", <<>>, <<k>>, <<x>>) : k \in 1..3, x \in {0, 50000, 100000, 300000, 500000, 900000, U}})
   \cup One({Cmd("gpcmp", "-", <<>>, <<i, j>>, <<>>) : i \in 1..7, j \in 1..7})
   \cup UNION {{<<Cmd("gmop", f, <<>>, <<4>> \o l, <<>>), Cmd("gmop", IF f = "set" THEN "remove" ELSE "iremove", <<>>, <<4, k>>, <<>>), Cmd("gmop", "eval", <<>>, <<4>>, <<200000>>)>>
                : k \in 0..Len(l)} : f \in {"set", "iset"}, l \in {<<1>>, <<0>>, <<1, 0>>, <<0, 0>>, <<4, 0, 2>>, <<3, 6, 1>>, <<0, 2, 0, 5>>, <<4, 2, 7, 1>>, <<1, 0, 3, 5, 0>>}}
   \cup {<<Cmd("gpart", "-", <<>>, <<k>>, <<x>>), Cmd("gpart", "copy", <<>>, <<j>>, <<>>)>> : k \in 0..6, x \in {-250000, 0, 500000, U, 1700000}, j \in 1..9}
   \cup {<<Cmd("gmop", "set", <<>>, <<4>> \o f, <<>>), Cmd("gmop", "iset", <<>>, <<4>> \o i, <<>>), Cmd("gmop", "set", <<>>, <<5>> \o g, <<>>), Cmd("gmop", "iset", <<>>, <<5>> \o j, <<>>),
           Cmd("gmop", "eq", <<>>, <<4, 5>>, <<>>), Cmd("gmop", "eq", <<>>, <<5, 4>>, <<>>)>> : f \in EqLists, g \in {<<1, 3, 4>>}, i \in EqLists, j \in EqLists}
   \cup UNION {{<<New(59, t, d, [i \in 1..NC(t) |-> 130000 * (i + 1)], 500000), Cmd(f, "-", <<59>>, <<>>, <<>>)>> : f \in {"cgam", "cigam"}, d \in {1, 2}} : t \in Types}
GammasPro == [i \in 1..8 |-> Cmd("gm", GammaNames[i], <<>>, <<>>, <<>>)]
W17b(z_) == One({Cmd("gmop", f, <<>>, <<5 + i>>, <<x>>) : f \in {"eval", "round"}, i \in 1..8, x \in {20000 * j : j \in 0..50} \cup {1000, 3000, 4500, 18000, 31250, 62500, 81000, 90000, 999000}})
PartsPro == <<Cmd("gpart", "-", <<>>, <<0>>, <<125000>>), Cmd("gpart", "-", <<>>, <<1>>, <<275000>>), Cmd("gpart", "-", <<>>, <<2>>, <<400000>>), Cmd("gpart", "-", <<>>, <<3>>, <<U>>),
              Cmd("gpart", "-", <<>>, <<4>>, <<700000>>), Cmd("gpart", "-", <<>>, <<5>>, <<900000>>), Cmd("gpart", "-", <<>>, <<6>>, <<800000>>), Cmd("gpart", "-", <<>>, <<3>>, <<1700000>>), Cmd("gpart", "-", <<>>, <<2>>, <<-250000>>),
              Cmd("gm", "list", <<>>, <<2, 2, 4, 5>>, <<>>), Cmd("gm", "list", <<>>, <<1, 6, 1, 4>>, <<>>)>>
\* matrices: two operations on X (slot +1), Y (slot +2), Z (slot +3); then queries
MatPro(k, b) == <<Cmd(k, "newd", <<b + 1>>, <<2, 2>>, <<2 * U, -U, 3 * U, 4 * U>>), Cmd(k, "newd", <<b + 2>>, <<2, 2>>, <<U, 2 * U, -3 * U, U>>), Cmd(k, "newd", <<b + 3>>, <<2, 3>>, <<U, 0, 5 * U, -2 * U, U, 2 * U>>)>>
MatOps(k, b) == {Cmd(k, "pluseq", <<b + 1, b + 2>>, <<>>, <<>>), Cmd(k, "minuseq", <<b + 1, b + 2>>, <<>>, <<>>), Cmd(k, "timeseq", <<b + 1, b + 2>>, <<>>, <<>>), Cmd(k, "timeseq", <<b + 1, b + 3>>, <<>>, <<>>),
                 Cmd(k, "pluseq", <<b + 1, b + 1>>, <<>>, <<>>), Cmd(k, "timeseq", <<b + 1, b + 1>>, <<>>, <<>>), Cmd(k, "minuseq", <<b + 1, b + 1>>, <<>>, <<>>), Cmd(k, "times", <<b + 1, b + 2, b + 1>>, <<>>, <<>>),
                 Cmd(k, "transpose", <<b + 1, b + 1>>, <<>>, <<>>), Cmd(k, "transpose", <<b + 1, b + 3>>, <<>>, <<>>), Cmd(k, "assign", <<b + 1, b + 3>>, <<>>, <<>>), Cmd(k, "assign", <<b + 1, b + 1>>, <<>>, <<>>),
                 Cmd(k, "resize", <<b + 1>>, <<3, 3>>, <<U>>), Cmd(k, "resize", <<b + 1>>, <<1, 2>>, <<>>), Cmd(k, "fill", <<b + 1>>, <<>>, <<2 * U>>), Cmd(k, "insert", <<b + 1>>, <<>>, <<U, 2 * U, 3 * U, 5 * U>>),
                 Cmd(k, "set", <<b + 1>>, <<0, 1>>, <<7 * U>>), Cmd(k, "stimes", <<b + 1, b + 1>>, <<>>, <<3 * U>>), Cmd(k, "adjoint", <<b + 1, b + 1>>, <<>>, <<>>), Cmd(k, "copy", <<b + 1, b + 2>>, <<>>, <<>>)}
MatEnd(k, b) == <<Cmd(k, "shape", <<b + 1>>, <<>>, <<>>), Cmd(k, "copy", <<b + 4, b + 1>>, <<>>, <<>>), Cmd(k, "eq", <<b + 1, b + 4>>, <<>>, <<>>), Cmd(k, "det", <<b + 1>>, <<>>, <<>>)>>
\* shifted identities, triangles and dense matrices of every size
Square(n, w) == [i \in 1..(n * n) |-> LET x == (i - 1) \div n y == (i - 1) % n IN
                   U * (CASE w = 0 -> (IF (x + 1) % n = y THEN 1 ELSE 0)
                          [] w = 1 -> (IF x = y THEN 1 + (x % 2) ELSE IF x > y THEN x - 2 * y ELSE 0)
                          [] w = 2 -> ((x * 3 + y * 5 + x * y) % 4) - (IF x = y THEN 0 ELSE 1)
                          [] w = 3 -> (IF x + y = n - 1 THEN 1 ELSE 0)
                          [] OTHER -> IF x = y THEN (IF x = n - 1 THEN 0 ELSE 1) ELSE 0)]
W18b(z_) == UNION {{<<Cmd(k[1], "newsqd", <<k[2] + 6>>, <<n>>, Square(n, w)), Cmd(k[1], "det", <<k[2] + 6>>, <<>>, <<>>), Cmd(k[1], "transpose", <<k[2] + 7, k[2] + 6>>, <<>>, <<>>), Cmd(k[1], "times", <<k[2] + 8, k[2] + 6, k[2] + 7>>, <<>>, <<>>)>>
                \o (IF n < 5 THEN <<Cmd(k[1], "adjoint", <<k[2] + 8, k[2] + 6>>, <<>>, <<>>)>> ELSE <<>>) \o (IF w \in {0, 3, 4} \/ k[1] # "mi" THEN <<Cmd(k[1], "invert", <<k[2] + 8, k[2] + 6>>, <<>>, <<>>)>> ELSE <<>>)
                : n \in 1..(IF Deep THEN 6 ELSE 5), w \in 0..4} : k \in Kinds}
W18(z_) == UNION {{MatPro(k[1], k[2]) \o <<a, b>> \o MatEnd(k[1], k[2]) : a \in MatOps(k[1], k[2]), b \in MatOps(k[1], k[2])} : k \in (IF Deep THEN Kinds ELSE {<<"mf", 0>>})}
DefOps == {Cmd("setwp", "-", <<>>, <<4, 1>>, <<>>), Cmd("setwp", "-", <<>>, <<4, 2>>, <<>>), Cmd("setwp", "-", <<>>, <<5, 3>>, <<>>), Cmd("setgm", "-", <<>>, <<4, 1>>, <<>>), Cmd("setgm", "-", <<>>, <<5, 3>>, <<>>),
           Cmd("setdef", "-", <<58>>, <<4>>, <<>>), Cmd("setdef", "-", <<58>>, <<5>>, <<>>), Cmd("adapt", "bradford_s", <<57, 58>>, <<2>>, <<>>), Cmd("adapt", "von_kries", <<57, 59>>, <<4>>, <<>>)}
Halves == {Cmd("setwp", "-", <<>>, <<d, w>>, <<>>) : d \in {4, 5}, w \in 5..7}
DefEnd == <<Cmd("conv", "XYZ", <<60, 58>>, <<0>>, <<>>), Cmd("conv", "RGB_DEEP", <<61, 59>>, <<0>>, <<>>)>>
DefPro == <<Cmd("def", "copy", <<>>, <<1>>, <<>>), Cmd("def", "copy", <<>>, <<3>>, <<>>), New(58, "RGB_DEEP", 4, CompsOf("RGB_DEEP", "A"), U), New(59, "LAB", 5, CompsOf("LAB", "B"), U)>>
\* every preset definition under other whites and curves
W19b(z_) == UNION {{<<Cmd("setwp", "-", <<>>, <<d, w>>, <<>>), Cmd("setgm", "-", <<>>, <<d, 1 + (w % 3)>>, <<>>), New(62, "RGB_DEEP", d, CompsOf("RGB_DEEP", "B"), U), Cmd("conv", "XYZ", <<60, 62>>, <<0>>, <<>>), Cmd("conv", "RGB_DEEP", <<61, 60>>, <<0>>, <<>>)>>
               : w \in 1..4} : d \in {5 + i : i \in 1..Len(DefNames)}}
W19(z_) == {<<a, b, c>> \o DefEnd : a \in DefOps, b \in DefOps, c \in DefOps} \cup {<<a, b>> \o DefEnd : a \in DefOps, b \in Halves} \cup {<<a, b>> \o DefEnd : a \in Halves, b \in DefOps \cup Halves}
\* colors by name, white points by either set of coordinates, and the way between the coordinates
Chroma == {<<x, y>> : x \in {50000, 200000, 312700, 333333, 450000}, y \in {20000, 100000, 329000, 333333, 500000}}
Lumin == {100, 10000, 500000, 999999, U, 1000001, 10 * U, 49 * U, 50 * U, 60 * U, 95 * U, 100 * U, 101 * U, 255 * U} \cup (IF Deep THEN {i * U : i \in 2..40} ELSE {})
Triple(v, Y) == LET f(a) == MulDiv(a, Y, U) IN <<f(v[1]), f(v[2]), f(U - v[1] - v[2])>>
Reach(v) == {Y \in Lumin : MulDiv(Y, U, v[2]) < 1900 * U}
W20(z_) == UNION {{<<Cmd("named", n, <<1>>, <<d>>, <<>>)>> : d \in 1..(IF Deep THEN 3 ELSE 2)} : n \in DOMAIN Named}
   \cup {<<Cmd("named", "Teal", <<1>>, <<1>>, <<>>), Cmd("setc", "-", <<s>>, <<0>>, <<f>>), Cmd("named", "Teal", <<20>>, <<1>>, <<>>), Cmd("named", "Teal", <<20>>, <<2>>, <<>>)>> : f \in {250000}, s \in 1..10}
   \cup UNION {UNION {One({Cmd("c2t", "-", <<>>, <<>>, <<v[1], v[2], U - v[1] - v[2], Y>>), Cmd("c2t", "-", <<>>, <<>>, <<v[1], v[2], U - v[1] - v[2]>>), Cmd("t2c", "-", <<>>, <<>>, Triple(v, Y))}) : Y \in Reach(v)} : v \in Chroma}
   \cup {<<Cmd("wp", "chr", <<>>, <<>>, v), Cmd("wp", "tri", <<>>, <<>>, Triple(v, Y)), Cmd("wp", "full", <<>>, <<>>, Triple(v, Y) \o v), Cmd("wp", "fulla", <<>>, <<>>, Triple(v, Y) \o v)>> : v \in Chroma, Y \in {500000, U, 30 * U, 100 * U}}
   \cup One({Cmd("wpeq", "-", <<>>, <<i, j>>, <<>>) : i \in 1..(4 + Len(WhiteNames)), j \in 1..(4 + Len(WhiteNames))})
-----------------------------------------------------------------------------
(* The same call again: variant v with operands x and y, results from slot o  *)
Variant(op, f, k, p) == [op |-> op, f |-> f, k |-> k, p |-> p]
Call(v, x, y, o) == Cmd(v.op, v.f, CASE v.op \in {"conv", "adj", "adapt"} -> <<o, x>> [] v.op = "dist" -> <<x, y>> [] v.op = "comb" -> <<x, o>> [] v.op = "avg" /\ v.k = <<0>> -> <<o, x, y, x, y, y>> [] OTHER -> <<o, x, y>>, v.k, v.p)
Variants(t) ==
  {Variant("conv", T, <<0>>, <<>>) : T \in Types} \cup {Variant("adj", f, <<>>, <<300000>>) : f \in {"sat_rgb", "sat_hsl", "lum_rgb", "lum_hsl"}} \cup {Variant("adapt", f, <<2>>, IF f \in {"cmccat97", "cat02", "cmccat2000"} THEN <<800000>> ELSE <<>>) : f \in Cats}
  \cup {Variant("dist", f[1], <<>>, <<>>) : f \in DistFns} \cup {Variant("comb", f, <<>>, <<>>) : f \in {"complimentary", "triplet", "quartet", "quintet"}} \cup {Variant("comb", f, <<>>, <<30 * U>>) : f \in {"analogous", "split"}}
  \cup {Variant("comb", "combination", <<4>>, <<>>), Variant("comb", "monochromatic", <<1, 4>>, <<100000>>), Variant("avg", t, <<1>>, <<>>), Variant("avg", t, <<0>>, <<>>), Variant("plus", "-", <<>>, <<>>)}
  \cup {Variant("blend", m, <<1, 0>>, <<>>) : m \in Modes \ {"dissolve"}} \cup {Variant("blend", "custom", <<0, 1, 3>>, <<>>)} \cup {Variant("pd", m, <<>>, <<>>) : m \in Pds}
  \cup {Variant(op, f, <<1>>, ArithP(op, 400000)) : op \in Arith, f \in {"typed", "base"}}
\* own operands 46 and 47, their twins 48 and 49, results from 50 on: again at once, with twins, after
\* a change of either operand and back, of the result, and after the same call with other colors
Again(v, t, T) ==
  LET c(x, y) == Call(v, x, y, 50)
      cp(x, y) == Cmd("copy", "-", <<x, y>>, <<>>, <<>>)
      set(s, u) == Cmd("gset", "-", <<s>>, <<0>>, <<CompsOf(u, "C")[1]>>)
      back(s, x) == Cmd("assign", "-", <<s, x>>, <<>>, <<>>)
      audit == Cmd("audit", "-", <<>>, <<>>, <<>>)
  IN  <<cp(46, A(t)), cp(47, B(T)), cp(48, A(t)), cp(49, B(T)), c(46, 47), c(46, 47), c(48, 49)>>
      \o (IF v.op = "dist" THEN <<>> ELSE <<Cmd("gset", "-", <<50>>, <<0>>, <<CompsOf(t, "C")[1]>>)>>)
      \o <<c(46, 47), set(46, t), c(46, 47), cp(48, 46), c(48, 49), set(47, T), c(46, 47), cp(49, 47), c(48, 49), c(A(t), B(T)), back(47, B(T)), back(46, A(t)), c(46, 47), Cmd("alpha", "-", <<46>>, <<>>, <<AlphaIn(t, 300000)>>), c(46, 47), Cmd("alpha", "-", <<47>>, <<>>, <<AlphaIn(T, 995000)>>), c(46, 47),
            cp(48, 46), c(48, 47), c(C(t), C(T)), c(A(t), B(T)), audit>>
\* white points 5 and 6 are twins of 2 and 3
TwinPro == <<Cmd("wp", "D50_2", <<>>, <<>>, <<>>), Cmd("wp", "A_2", <<>>, <<>>, <<>>)>>
Towards(f, t) == LET c(x, w) == Cmd("adapt", f, <<50, x>>, <<w>>, IF f \in {"cmccat97", "cat02", "cmccat2000"} THEN <<800000>> ELSE <<>>) new(s, d) == New(s, t, d, CompsOf(t, "A"), 700000) w(n) == Cmd("setwp", "-", <<>>, <<4, n>>, <<>>)
  IN  <<w(1), new(46, 4), new(47, 1), c(46, 3), w(4), c(46, 3), c(46, 6), w(1), c(46, 6), c(47, 3), c(47, 6), w(2), c(46, 5), c(46, 2), w(5), c(46, 5), c(46, 2), c(46, 6), c(46, 3), Cmd("audit", "-", <<>>, <<>>, <<>>)>>
InPlace == {Variant("cgam", "-", <<>>, <<>>), Variant("cigam", "-", <<>>, <<>>), Variant("amul", "-", <<>>, <<>>), Variant("adiv", "-", <<>>, <<>>)} \cup {Variant("adjr", f, <<>>, <<-300000>>) : f \in {"sat_rgb", "sat_hsl", "lum_rgb", "lum_hsl"}}
Anew(v, t) == LET c(s) == Cmd(v.op, v.f, <<s>>, v.k, v.p) cp(x, y) == Cmd("copy", "-", <<x, y>>, <<>>, <<>>) IN
  <<cp(46, A(t)), cp(47, A(t)), cp(48, B(t)), c(46), c(48), c(47), Cmd("assign", "-", <<48, A(t)>>, <<>>, <<>>), c(48), Cmd("bassign", "-", <<46, B(t)>>, <<>>, <<>>), c(46), cp(47, A(t)), c(47), Cmd("audit", "-", <<>>, <<>>, <<>>)>>
\* under a definition that changes and changes back
Under(v, t) ==
  LET c == Call(v, 46, 47, 50) new(s, d, q) == New(s, t, d, CompsOf(t, q), 700000) w(n) == Cmd("setwp", "-", <<>>, <<4, n>>, <<>>) g(n) == Cmd("setgm", "-", <<>>, <<4, n>>, <<>>)
  IN  <<w(1), g(1), new(46, 4, "A"), new(47, 4, "B"), new(48, 1, "A"), new(49, 1, "B"), c, w(3), c, g(3), c, Call(v, 48, 49, 50), g(1), c, w(1), c, Cmd("setdef", "-", <<46>>, <<5>>, <<>>), Cmd("setdef", "-", <<47>>, <<5>>, <<>>), c,
        Cmd("setdef", "-", <<46>>, <<4>>, <<>>), Cmd("setdef", "-", <<47>>, <<4>>, <<>>), c>>
T21 == IF Deep THEN Types ELSE {"RGB_DEEP", "RGB_TRUE", "HSL", "HCY", "XYZ", "LAB"}
W21(z_) == UNION {{Again(v, t, t) : v \in Variants(t)} : t \in T21} \cup UNION {{Anew(v, t) : v \in InPlace} : t \in Types}
   \cup UNION {{Under(v, t) : v \in {x \in Variants(t) : x.op \in {"conv", "dist", "adapt", "mix", "comb"}}} : t \in (IF Deep THEN Types ELSE {"RGB_DEEP", "LAB"})}
   \cup {Towards(f, t) : f \in Cats, t \in {"XYZ", "RGB_DEEP", "LAB"}}
   \cup UNION {{Again(v, t, "HSV") : v \in {x \in Variants(t) : x.op \in {"blend", "pd", "dist"}}} : t \in (IF Deep THEN T21 ELSE {"RGB_DEEP"})}
W13x(z_) == UNION {{<<New(59, t, 1, c, 600000)>> \o <<Cmd("dist", "euclid", <<59, B(t)>>, <<>>, <<>>), Cmd("dist", "weighted", <<59, B(t)>>, <<>>, <<>>), Cmd("dist", "cie76", <<59, B("LAB")>>, <<>>, <<>>), Cmd("dist", "cie94", <<59, B("RGB_DEEP")>>, <<>>, <<>>), Cmd("dist", "cmc", <<59, B("LAB")>>, <<>>, <<>>), Cmd("dist", "cie00", <<59, B(t)>>, <<>>, <<>>), Cmd("dist", "cmc", <<B(t), 59>>, <<>>, <<>>), Cmd("dist", "euclid", <<59, 59>>, <<11>>, <<>>)>> : c \in Ladder(t)} : t \in Types}
W15x(z_) == UNION {{<<New(59, t, 1, c, 600000)>> \o <<Cmd("adj", "sat_rgb", <<Out, 59>>, <<>>, <<-400000>>), Cmd("adj", "sat_rgb", <<Out, 59>>, <<>>, <<500000>>), Cmd("adj", "sat_hsl", <<Out, 59>>, <<>>, <<-400000>>), Cmd("adj", "sat_hsl", <<Out, 59>>, <<>>, <<500000>>), Cmd("adj", "lum_rgb", <<Out, 59>>, <<>>, <<-400000>>), Cmd("adj", "lum_rgb", <<Out, 59>>, <<>>, <<500000>>), Cmd("adj", "lum_hsl", <<Out, 59>>, <<>>, <<-400000>>), Cmd("adj", "lum_hsl", <<Out, 59>>, <<>>, <<500000>>)>> : c \in Ladder(t)} : t \in Types}
W14x(z_) == UNION {{<<New(49, t, 1, c, 600000)>> \o <<Cmd("comb", "complimentary", <<49, 50>>, <<>>, <<>>), Cmd("comb", "triplet", <<49, 50>>, <<>>, <<>>), Cmd("comb", "split", <<49, 50>>, <<>>, <<30 * U>>), Cmd("comb", "monochromatic", <<49, 50>>, <<2, 3>>, <<200000>>)>> : c \in Ladder(t)} : t \in Types}
W16x(z_) == UNION {{<<New(59, t, 1, c, 600000)>> \o <<Cmd("adapt", "von_kries", <<Out, 59>>, <<2>>, Degree("von_kries")), Cmd("adapt", "bradford", <<Out, 59>>, <<3>>, Degree("bradford")), Cmd("adapt", "cmccat97", <<Out, 59>>, <<2>>, Degree("cmccat97")), Cmd("adapt", "cmccat2000", <<Out, 59>>, <<4>>, Degree("cmccat2000")), Cmd("adapt", "cat02", <<Out, 59>>, <<3>>, Degree("cat02"))>> : c \in Ladder(t)} : t \in Types}
W11x(z_) == UNION {{<<New(59, t, 1, c, 600000)>> \o <<Cmd("mix", "typed", <<Out, 59, A(t)>>, <<1>>, <<300000>>), Cmd("add", "base", <<Out, B(t), 59>>, <<1>>, <<U, 200000>>), Cmd("sub", "typed", <<Out, B(t), 59>>, <<0>>, <<400000>>), Cmd("avg", t, <<Out, 59, A(t), B(t), 59>>, <<1>>, <<>>)>> : c \in Ladder(t)} : t \in Types}
W09x(z_) == UNION {{<<New(59, t, 1, c, 600000)>> \o <<Cmd("blend", "normal", <<Out, 59, B(t)>>, <<2, 2>>, <<>>), Cmd("blend", "soft_light", <<Out, 59, B(t)>>, <<2, 2>>, <<>>), Cmd("blend", "color_dodge", <<Out, 59, B(t)>>, <<2, 2>>, <<>>), Cmd("blend", "luminosity", <<Out, 59, B(t)>>, <<2, 2>>, <<>>), Cmd("blend", "screen", <<Out, A(t), 59>>, <<0, 1>>, <<>>), Cmd("blend", "hard_mix", <<Out, A(t), 59>>, <<0, 1>>, <<>>), Cmd("blend", "hue", <<Out, A(t), 59>>, <<0, 1>>, <<>>)>> : c \in Ladder(t)} : t \in Types}
W10x(z_) == UNION {{<<New(59, t, 1, c, 600000)>> \o <<Cmd("pd", "over", <<Out, 59, B(t)>>, <<>>, <<>>), Cmd("pd", "x_or", <<Out, 59, B(t)>>, <<>>, <<>>), Cmd("pd", "dest_atop", <<Out, A(t), 59>>, <<>>, <<>>), Cmd("pd", "in", <<Out, A(t), 59>>, <<>>, <<>>)>> : c \in Ladder(t)} : t \in Types}
AllWords == CASE Prop = "C01" -> W01(0) \cup Made \cup (IF Deep THEN W01b(0) ELSE {}) [] Prop = "C02" -> W02(0) \cup Made [] Prop = "C03" -> W03(0) [] Prop = "C04" -> W04(0) [] Prop = "C05" -> W05(0) [] Prop = "C06" -> W06(0) \cup W06b(0) \cup W06c(0) \cup W07c(0) [] Prop = "C07" -> W07(0) \cup W07b(0) \cup W07c(0) [] Prop = "C08" -> W08(0) \cup W08b(0)
              [] Prop = "C09" -> W09x(0) \cup W09(0) [] Prop = "C10" -> W10x(0) \cup W10(0) [] Prop = "C11" -> W11x(0) \cup W11(0) [] Prop = "C12" -> W12(0) [] Prop = "C13" -> W13x(0) \cup W13(0) \cup W13b(0) \cup W13c(0) [] Prop = "C14" -> W14x(0) \cup W14(0) [] Prop = "C15" -> W15x(0) \cup W15(0) [] Prop = "C16" -> W16x(0) \cup W16(0) \cup W16b(0) \cup W16c(0)
              [] Prop = "C17" -> W17(0) \cup W17b(0) [] Prop = "C18" -> W18(0) \cup W18b(0) [] Prop = "C19" -> W19(0) \cup W19b(0) [] Prop = "C20" -> W20(0) [] Prop = "C21" -> W21(0)
Pro == Prologue \o (CASE Prop = "C17" -> PartsPro \o GammasPro [] Prop = "C21" -> DefPro \o TwinPro [] Prop = "C19" -> DefPro \o DefsPro \o HalfPro [] Prop \in {"C06", "C07"} -> DefsPro [] Prop = "C16" -> WhitePro \o HalfPro [] Prop = "C20" -> [i \in 1..Len(WhiteNames) |-> WhitePro[i]] [] OTHER -> <<>>)

-----------------------------------------------------------------------------
Init == /\ word \in AllWords
Next == UNCHANGED word
Emit == PrintT("CASE " \o Text(word, 1))
ASSUME \A i \in 1..Len(Pro) : PrintT("PROLOGUE " \o ToString(i) \o " " \o Line(Pro[i]))
=============================================================================
