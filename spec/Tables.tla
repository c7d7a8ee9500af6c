------------------------------- MODULE Tables -------------------------------
(* Published values: named colors (CSS Color Module), white points (CIE 15,
   ASTM E308), RGB color spaces.                                             *)
EXTENDS Num, TLC

\* name -> red, green, blue, alpha (8 bit)
Named ==
  ("AliceBlue" :> <<240, 248, 255, 255>>) @@
  ("AntiqueWhite" :> <<250, 235, 215, 255>>) @@
  ("Aqua" :> <<0, 255, 255, 255>>) @@
  ("Aquamarine" :> <<127, 255, 212, 255>>) @@
  ("Azure" :> <<240, 255, 255, 255>>) @@
  ("Beige" :> <<245, 245, 220, 255>>) @@
  ("Bisque" :> <<255, 228, 196, 255>>) @@
  ("Black" :> <<0, 0, 0, 255>>) @@
  ("BlanchedAlmond" :> <<255, 235, 205, 255>>) @@
  ("Blue" :> <<0, 0, 255, 255>>) @@
  ("BlueViolet" :> <<138, 43, 226, 255>>) @@
  ("Brown" :> <<165, 42, 42, 255>>) @@
  ("BurlyWood" :> <<222, 184, 135, 255>>) @@
  ("CadetBlue" :> <<95, 158, 160, 255>>) @@
  ("Chartreuse" :> <<127, 255, 0, 255>>) @@
  ("Chocolate" :> <<210, 105, 30, 255>>) @@
  ("Coral" :> <<255, 127, 80, 255>>) @@
  ("CornflowerBlue" :> <<100, 149, 237, 255>>) @@
  ("Cornsilk" :> <<255, 248, 220, 255>>) @@
  ("Crimson" :> <<220, 20, 60, 255>>) @@
  ("Cyan" :> <<0, 255, 255, 255>>) @@
  ("DarkBlue" :> <<0, 0, 139, 255>>) @@
  ("DarkCyan" :> <<0, 139, 139, 255>>) @@
  ("DarkGoldenrod" :> <<184, 134, 11, 255>>) @@
  ("DarkGray" :> <<169, 169, 169, 255>>) @@
  ("DarkGreen" :> <<0, 100, 0, 255>>) @@
  ("DarkKhaki" :> <<189, 183, 107, 255>>) @@
  ("DarkMagenta" :> <<139, 0, 139, 255>>) @@
  ("DarkOliveGreen" :> <<85, 107, 47, 255>>) @@
  ("DarkOrange" :> <<255, 140, 0, 255>>) @@
  ("DarkOrchid" :> <<153, 50, 204, 255>>) @@
  ("DarkRed" :> <<139, 0, 0, 255>>) @@
  ("DarkSalmon" :> <<233, 150, 122, 255>>) @@
  ("DarkSeaGreen" :> <<143, 188, 143, 255>>) @@
  ("DarkSlateBlue" :> <<72, 61, 139, 255>>) @@
  ("DarkSlateGray" :> <<47, 79, 79, 255>>) @@
  ("DarkTurquoise" :> <<0, 206, 209, 255>>) @@
  ("DarkViolet" :> <<148, 0, 211, 255>>) @@
  ("DeepPink" :> <<255, 20, 147, 255>>) @@
  ("DeepSkyBlue" :> <<0, 191, 255, 255>>) @@
  ("DimGray" :> <<105, 105, 105, 255>>) @@
  ("DodgerBlue" :> <<30, 144, 255, 255>>) @@
  ("Firebrick" :> <<178, 34, 34, 255>>) @@
  ("FloralWhite" :> <<255, 250, 240, 255>>) @@
  ("ForestGreen" :> <<34, 139, 34, 255>>) @@
  ("Fuchsia" :> <<255, 0, 255, 255>>) @@
  ("Gainsboro" :> <<220, 220, 220, 255>>) @@
  ("GhostWhite" :> <<248, 248, 255, 255>>) @@
  ("Gold" :> <<255, 215, 0, 255>>) @@
  ("Goldenrod" :> <<218, 165, 32, 255>>) @@
  ("Gray" :> <<128, 128, 128, 255>>) @@
  ("Green" :> <<0, 128, 0, 255>>) @@
  ("GreenYellow" :> <<173, 255, 47, 255>>) @@
  ("Honeydew" :> <<240, 255, 240, 255>>) @@
  ("HotPink" :> <<255, 105, 180, 255>>) @@
  ("IndianRed" :> <<205, 92, 92, 255>>) @@
  ("Indigo" :> <<75, 0, 130, 255>>) @@
  ("Ivory" :> <<255, 255, 240, 255>>) @@
  ("Khaki" :> <<240, 230, 140, 255>>) @@
  ("Lavender" :> <<230, 230, 250, 255>>) @@
  ("LavenderBlush" :> <<255, 240, 245, 255>>) @@
  ("LawnGreen" :> <<124, 252, 0, 255>>) @@
  ("LemonChiffon" :> <<255, 250, 205, 255>>) @@
  ("LightBlue" :> <<173, 216, 230, 255>>) @@
  ("LightCoral" :> <<240, 128, 128, 255>>) @@
  ("LightCyan" :> <<224, 255, 255, 255>>) @@
  ("LightGoldenrodYellow" :> <<250, 250, 210, 255>>) @@
  ("LightGray" :> <<211, 211, 211, 255>>) @@
  ("LightGreen" :> <<144, 238, 144, 255>>) @@
  ("LightPink" :> <<255, 182, 193, 255>>) @@
  ("LightSalmon" :> <<255, 160, 122, 255>>) @@
  ("LightSeaGreen" :> <<32, 178, 170, 255>>) @@
  ("LightSkyBlue" :> <<135, 206, 250, 255>>) @@
  ("LightSlateGray" :> <<119, 136, 153, 255>>) @@
  ("LightSteelBlue" :> <<176, 196, 222, 255>>) @@
  ("LightYellow" :> <<255, 255, 224, 255>>) @@
  ("Lime" :> <<0, 255, 0, 255>>) @@
  ("LimeGreen" :> <<50, 205, 50, 255>>) @@
  ("Linen" :> <<250, 240, 230, 255>>) @@
  ("Magenta" :> <<255, 0, 255, 255>>) @@
  ("Maroon" :> <<128, 0, 0, 255>>) @@
  ("MediumAquamarine" :> <<102, 205, 170, 255>>) @@
  ("MediumBlue" :> <<0, 0, 205, 255>>) @@
  ("MediumOrchid" :> <<186, 85, 211, 255>>) @@
  ("MediumPurple" :> <<147, 112, 219, 255>>) @@
  ("MediumSeaGreen" :> <<60, 179, 113, 255>>) @@
  ("MediumSlateBlue" :> <<123, 104, 238, 255>>) @@
  ("MediumSpringGreen" :> <<0, 250, 154, 255>>) @@
  ("MediumTurquoise" :> <<72, 209, 204, 255>>) @@
  ("MediumVioletRed" :> <<199, 21, 133, 255>>) @@
  ("MidnightBlue" :> <<25, 25, 112, 255>>) @@
  ("MintCream" :> <<245, 255, 250, 255>>) @@
  ("MistyRose" :> <<255, 228, 225, 255>>) @@
  ("Moccasin" :> <<255, 228, 181, 255>>) @@
  ("NavajoWhite" :> <<255, 222, 173, 255>>) @@
  ("Navy" :> <<0, 0, 128, 255>>) @@
  ("OldLace" :> <<253, 245, 230, 255>>) @@
  ("Olive" :> <<128, 128, 0, 255>>) @@
  ("OliveDrab" :> <<107, 142, 35, 255>>) @@
  ("Orange" :> <<255, 165, 0, 255>>) @@
  ("OrangeRed" :> <<255, 69, 0, 255>>) @@
  ("Orchid" :> <<218, 112, 214, 255>>) @@
  ("PaleGoldenrod" :> <<238, 232, 170, 255>>) @@
  ("PaleGreen" :> <<152, 251, 152, 255>>) @@
  ("PaleTurquoise" :> <<175, 238, 238, 255>>) @@
  ("PaleVioletRed" :> <<219, 112, 147, 255>>) @@
  ("PapayaWhip" :> <<255, 239, 213, 255>>) @@
  ("PeachPuff" :> <<255, 218, 185, 255>>) @@
  ("Peru" :> <<205, 133, 63, 255>>) @@
  ("Pink" :> <<255, 192, 203, 255>>) @@
  ("Plum" :> <<221, 160, 221, 255>>) @@
  ("PowderBlue" :> <<176, 224, 230, 255>>) @@
  ("Purple" :> <<128, 0, 128, 255>>) @@
  ("Red" :> <<255, 0, 0, 255>>) @@
  ("RosyBrown" :> <<188, 143, 143, 255>>) @@
  ("RoyalBlue" :> <<65, 105, 225, 255>>) @@
  ("SaddleBrown" :> <<139, 69, 19, 255>>) @@
  ("Salmon" :> <<250, 128, 114, 255>>) @@
  ("SandyBrown" :> <<244, 164, 96, 255>>) @@
  ("SeaGreen" :> <<46, 139, 87, 255>>) @@
  ("SeaShell" :> <<255, 245, 238, 255>>) @@
  ("Sienna" :> <<160, 82, 45, 255>>) @@
  ("Silver" :> <<192, 192, 192, 255>>) @@
  ("SkyBlue" :> <<135, 206, 235, 255>>) @@
  ("SlateBlue" :> <<106, 90, 205, 255>>) @@
  ("SlateGray" :> <<112, 128, 144, 255>>) @@
  ("Snow" :> <<255, 250, 250, 255>>) @@
  ("SpringGreen" :> <<0, 255, 127, 255>>) @@
  ("SteelBlue" :> <<70, 130, 180, 255>>) @@
  ("Tan" :> <<210, 180, 140, 255>>) @@
  ("Teal" :> <<0, 128, 128, 255>>) @@
  ("Thistle" :> <<216, 191, 216, 255>>) @@
  ("Tomato" :> <<255, 99, 71, 255>>) @@
  ("Transparent" :> <<255, 255, 255, 0>>) @@
  ("Turquoise" :> <<64, 224, 208, 255>>) @@
  ("Violet" :> <<238, 130, 238, 255>>) @@
  ("Wheat" :> <<245, 222, 179, 255>>) @@
  ("White" :> <<255, 255, 255, 255>>) @@
  ("WhiteSmoke" :> <<245, 245, 245, 255>>) @@
  ("Yellow" :> <<255, 255, 0, 255>>) @@
  ("YellowGreen" :> <<154, 205, 50, 255>>)

\* name -> X, Y, Z, x, y (in micro)
Whites ==
  ("D50_2" :> <<964200, 1000000, 825100, 345600, 358500>>) @@
  ("D55_2" :> <<956800, 1000000, 921400, 332400, 347400>>) @@
  ("D65_2" :> <<950400, 1000000, 1088800, 312700, 329000>>) @@
  ("D75_2" :> <<949700, 1000000, 1226400, 299000, 314800>>) @@
  ("A_2" :> <<1098500, 1000000, 355800, 447500, 407400>>) @@
  ("B_2" :> <<990900, 1000000, 853100, 348400, 351600>>) @@
  ("C_2" :> <<980700, 1000000, 1182300, 310000, 316100>>) @@
  ("E_2" :> <<1000000, 1000000, 1000000, 333300, 333300>>) @@
  ("F1_2" :> <<928300, 1000000, 1036600, 313000, 337200>>) @@
  ("F2_2" :> <<991800, 1000000, 673900, 372000, 375100>>) @@
  ("F3_2" :> <<1037500, 1000000, 498600, 409000, 394300>>) @@
  ("F4_2" :> <<1091400, 1000000, 388100, 440100, 403300>>) @@
  ("F5_2" :> <<908700, 1000000, 987200, 313700, 345300>>) @@
  ("F6_2" :> <<973000, 1000000, 601900, 377800, 388300>>) @@
  ("F7_2" :> <<950400, 1000000, 1087500, 312800, 329100>>) @@
  ("F8_2" :> <<964100, 1000000, 823300, 345800, 358700>>) @@
  ("F9_2" :> <<1003600, 1000000, 678600, 374100, 372800>>) @@
  ("F10_2" :> <<961700, 1000000, 817100, 346000, 359800>>) @@
  ("F11_2" :> <<1009600, 1000000, 643700, 380500, 376800>>) @@
  ("F12_2" :> <<1080400, 1000000, 392200, 436900, 404400>>) @@
  ("D50_10" :> <<967200, 1000000, 814200, 347700, 359500>>) @@
  ("D55_10" :> <<957900, 1000000, 909200, 334100, 348700>>) @@
  ("D65_10" :> <<948100, 1000000, 1073000, 313800, 331000>>) @@
  ("D75_10" :> <<944100, 1000000, 1206400, 299600, 317400>>) @@
  ("A_10" :> <<1111400, 1000000, 352000, 451100, 405900>>) @@
  ("B_10" :> <<991700, 1000000, 843490, 349700, 352700>>) @@
  ("C_10" :> <<972800, 1000000, 1161400, 310300, 319000>>) @@
  ("E_10" :> <<1000000, 1000000, 1000000, 333300, 333300>>) @@
  ("F1_10" :> <<947900, 1000000, 1031900, 318100, 335500>>) @@
  ("F2_10" :> <<1032800, 1000000, 690200, 379200, 367200>>) @@
  ("F3_10" :> <<1089600, 1000000, 519600, 417500, 383200>>) @@
  ("F4_10" :> <<1149600, 1000000, 409600, 449200, 390700>>) @@
  ("F5_10" :> <<933600, 1000000, 986300, 319700, 342400>>) @@
  ("F6_10" :> <<1021400, 1000000, 620700, 386500, 378400>>) @@
  ("F7_10" :> <<957900, 1000000, 1076800, 315600, 329500>>) @@
  ("F8_10" :> <<971100, 1000000, 811300, 349000, 359400>>) @@
  ("F9_10" :> <<1021100, 1000000, 678200, 378200, 370400>>) @@
  ("F10_10" :> <<990000, 1000000, 831300, 350900, 354400>>) @@
  ("F11_10" :> <<1038600, 1000000, 656200, 385400, 371000>>) @@
  ("F12_10" :> <<1114200, 1000000, 403500, 442500, 397100>>)

\* name -> xr, yr, xg, yg, xb, yb; white; gamma
SpacesTable ==
  ("sRGB" :> [p |-> <<640000, 330000, 300000, 600000, 150000, 60000>>, w |-> "D65_2", g |-> "sRGB"]) @@
  ("adobeRGB" :> [p |-> <<640000, 330000, 210000, 710000, 150000, 60000>>, w |-> "D65_2", g |-> "gammaAdobe"]) @@
  ("pal_secam" :> [p |-> <<640000, 330000, 290000, 600000, 150000, 60000>>, w |-> "D65_2", g |-> "gamma2_8"]) @@
  ("americaNTSC" :> [p |-> <<630000, 340000, 310000, 595000, 155000, 70000>>, w |-> "D65_2", g |-> "gamma2_2"]) @@
  ("oldNTSC" :> [p |-> <<670000, 330000, 210000, 710000, 140000, 80000>>, w |-> "C_2", g |-> "gamma2_2"]) @@
  ("appleRGB" :> [p |-> <<625000, 340000, 280000, 595000, 155000, 70000>>, w |-> "D65_2", g |-> "gamma1_8"]) @@
  ("dci_p3" :> [p |-> <<680000, 320000, 265000, 690000, 150000, 60000>>, w |-> "D65_2", g |-> "gamma2_6"]) @@
  ("uhdtv" :> [p |-> <<708000, 292000, 170000, 797000, 131000, 46000>>, w |-> "D65_2", g |-> "gammaUHDTV"]) @@
  ("adobeWideGammutRGB" :> [p |-> <<735000, 265000, 115000, 826000, 157000, 18000>>, w |-> "D50_2", g |-> "gammaAdobe"]) @@
  ("rommRGB" :> [p |-> <<734700, 265300, 159600, 840400, 36600, 100>>, w |-> "D50_2", g |-> "gammaRomm"]) @@
  ("bestRGB" :> [p |-> <<734700, 265300, 215000, 775000, 130000, 35000>>, w |-> "D50_2", g |-> "gamma2_2"]) @@
  ("betaRGB" :> [p |-> <<688800, 311200, 198600, 755100, 126500, 35200>>, w |-> "D50_2", g |-> "gamma2_2"]) @@
  ("bruceRGB" :> [p |-> <<640000, 330000, 280000, 650000, 150000, 60000>>, w |-> "D65_2", g |-> "gamma2_2"]) @@
  ("colorMatchRGB" :> [p |-> <<630000, 340000, 295000, 605000, 150000, 75000>>, w |-> "D50_2", g |-> "gamma1_8"]) @@
  ("donRGB4" :> [p |-> <<696000, 300000, 215000, 765000, 130000, 35000>>, w |-> "D50_2", g |-> "gamma2_2"]) @@
  ("ektaSpacePS5" :> [p |-> <<695000, 305000, 260000, 700000, 110000, 5000>>, w |-> "D50_2", g |-> "gamma2_2"]) @@
  ("ProPhotoRGB" :> [p |-> <<734700, 265300, 159600, 840400, 36600, 100>>, w |-> "D50_2", g |-> "gamma1_8"]) @@
  ("SMPTE_C_RGB" :> [p |-> <<630000, 340000, 310000, 595000, 155000, 70000>>, w |-> "D65_2", g |-> "gamma2_2"]) @@
  ("cieRGB" :> [p |-> <<734700, 265300, 273800, 717400, 166600, 8900>>, w |-> "E_2", g |-> "gamma2_2"]) @@
  ("cieXYZ" :> [p |-> <<1000000, 0, 0, 1000000, 0, 0>>, w |-> "E_2", g |-> "gamma2_2"])
=============================================================================
