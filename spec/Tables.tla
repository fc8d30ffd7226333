---- MODULE Tables ----
EXTENDS Integers
(***************************************************************************)
(* The two transcendental functions the specification needs, as integer    *)
(* tables (TLC has no reals).  MC_Fixed checks their functional equations. *)
(***************************************************************************)
\* round(16384 * cos(2 pi k / 240)), k = 0..239
COS240 == <<
  16384, 16378, 16362, 16333, 16294, 16244, 16182, 16110, 16026, 15931, 15826, 15709,
  15582, 15444, 15296, 15137, 14968, 14788, 14598, 14399, 14189, 13970, 13741, 13502,
  13255, 12998, 12733, 12458, 12176, 11885, 11585, 11278, 10963, 10641, 10311, 9974,
  9630, 9280, 8923, 8561, 8192, 7818, 7438, 7053, 6664, 6270, 5872, 5469,
  5063, 4653, 4240, 3825, 3406, 2986, 2563, 2139, 1713, 1285, 857, 429,
  0, -429, -857, -1285, -1713, -2139, -2563, -2986, -3406, -3825, -4240, -4653,
  -5063, -5469, -5872, -6270, -6664, -7053, -7438, -7818, -8192, -8561, -8923, -9280,
  -9630, -9974, -10311, -10641, -10963, -11278, -11585, -11885, -12176, -12458, -12733, -12998,
  -13255, -13502, -13741, -13970, -14189, -14399, -14598, -14788, -14968, -15137, -15296, -15444,
  -15582, -15709, -15826, -15931, -16026, -16110, -16182, -16244, -16294, -16333, -16362, -16378,
  -16384, -16378, -16362, -16333, -16294, -16244, -16182, -16110, -16026, -15931, -15826, -15709,
  -15582, -15444, -15296, -15137, -14968, -14788, -14598, -14399, -14189, -13970, -13741, -13502,
  -13255, -12998, -12733, -12458, -12176, -11885, -11585, -11278, -10963, -10641, -10311, -9974,
  -9630, -9280, -8923, -8561, -8192, -7818, -7438, -7053, -6664, -6270, -5872, -5469,
  -5063, -4653, -4240, -3825, -3406, -2986, -2563, -2139, -1713, -1285, -857, -429,
  0, 429, 857, 1285, 1713, 2139, 2563, 2986, 3406, 3825, 4240, 4653,
  5063, 5469, 5872, 6270, 6664, 7053, 7438, 7818, 8192, 8561, 8923, 9280,
  9630, 9974, 10311, 10641, 10963, 11278, 11585, 11885, 12176, 12458, 12733, 12998,
  13255, 13502, 13741, 13970, 14189, 14399, 14598, 14788, 14968, 15137, 15296, 15444,
  15582, 15709, 15826, 15931, 16026, 16110, 16182, 16244, 16294, 16333, 16362, 16378
>>

\* round(10^6 * exp(-k / 8)), k = 0..160
EXP8 == <<
  1000000, 882497, 778801, 687289, 606531, 535261, 472367, 416862, 367879, 324652,
  286505, 252840, 223130, 196912, 173774, 153355, 135335, 119433, 105399, 93014,
  82085, 72440, 63928, 56416, 49787, 43937, 38774, 34218, 30197, 26649,
  23518, 20754, 18316, 16163, 14264, 12588, 11109, 9804, 8652, 7635,
  6738, 5946, 5248, 4631, 4087, 3607, 3183, 2809, 2479, 2187,
  1930, 1704, 1503, 1327, 1171, 1033, 912, 805, 710, 627,
  553, 488, 431, 380, 335, 296, 261, 231, 203, 180,
  158, 140, 123, 109, 96, 85, 75, 66, 58, 51,
  45, 40, 35, 31, 28, 24, 21, 19, 17, 15,
  13, 11, 10, 9, 8, 7, 6, 5, 5, 4,
  4, 3, 3, 3, 2, 2, 2, 2, 1, 1,
  1, 1, 1, 1, 1, 1, 1, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0
>>
\* exp(-k/8) = << hi, lo >> standing for hi 10^-6 + lo 10^-12, k = 0..160
EXP8X == <<
  <<1000000, 0>>, <<882496, 902585>>, <<778800, 783071>>, <<687289, 278791>>, <<606530, 659713>>, <<535261, 428519>>, <<472366, 552741>>, <<416862, 19679>>,
  <<367879, 441171>>, <<324652, 467358>>, <<286504, 796860>>, <<252839, 595805>>, <<223130, 160148>>, <<196911, 675204>>, <<173773, 943450>>, <<153354, 966845>>,
  <<135335, 283237>>, <<119432, 968267>>, <<105399, 224562>>, <<93014, 489211>>, <<82084, 998624>>, <<72439, 757034>>, <<63927, 861207>>, <<56416, 139504>>,
  <<49787, 68368>>, <<43936, 933623>>, <<38774, 207832>>, <<34218, 118312>>, <<30197, 383422>>, <<26649, 97336>>, <<23517, 745856>>, <<20754, 337874>>,
  <<18315, 638889>>, <<16163, 494588>>, <<14264, 233909>>, <<12588, 142242>>, <<11108, 996538>>, <<9803, 655036>>, <<8651, 695203>>, <<7635, 94219>>,
  <<6737, 946999>>, <<5946, 217356>>, <<5247, 518399>>, <<4630, 918734>>, <<4086, 771438>>, <<3606, 563136>>, <<3182, 780797>>, <<2808, 794195>>,
  <<2478, 752177>>, <<2187, 491118>>, <<1930, 454136>>, <<1703, 619796>>, <<1503, 439193>>, <<1326, 780431>>, <<1170, 879621>>, <<1033, 297639>>,
  <<911, 881966>>, <<804, 733010>>, <<710, 174389>>, <<626, 726698>>, <<553, 84370>>, <<488, 95244>>, <<430, 742541>>, <<380, 128958>>,
  <<335, 462628>>, <<296, 44730>>, <<261, 258557>>, <<230, 559868>>, <<203, 468369>>, <<179, 560205>>, <<158, 461325>>, <<139, 841629>>,
  <<123, 409804>>, <<108, 908770>>, <<96, 111652>>, <<84, 818235>>, <<74, 851830>>, <<66, 56508>>, <<58, 294664>>, <<51, 444860>>,
  <<45, 399930>>, <<40, 65297>>, <<35, 357501>>, <<31, 202885>>, <<27, 536449>>, <<24, 300831>>, <<21, 445408>>, <<18, 925506>>,
  <<16, 701701>>, <<14, 739199>>, <<13, 7298>>, <<11, 478900>>, <<10, 130094>>, <<8, 939776>>, <<7, 889325>>, <<6, 962305>>,
  <<6, 144212>>, <<5, 422248>>, <<4, 785117>>, <<4, 222851>>, <<3, 726653>>, <<3, 288760>>, <<2, 902320>>, <<2, 561289>>,
  <<2, 260329>>, <<1, 994734>>, <<1, 760346>>, <<1, 553500>>, <<1, 370959>>, <<1, 209867>>, <<1, 67704>>, <<0, 942245>>,
  <<0, 831529>>, <<0, 733822>>, <<0, 647595>>, <<0, 571501>>, <<0, 504348>>, <<0, 445085>>, <<0, 392786>>, <<0, 346633>>,
  <<0, 305902>>, <<0, 269958>>, <<0, 238237>>, <<0, 210243>>, <<0, 185539>>, <<0, 163738>>, <<0, 144498>>, <<0, 127519>>,
  <<0, 112535>>, <<0, 99312>>, <<0, 87642>>, <<0, 77344>>, <<0, 68256>>, <<0, 60236>>, <<0, 53158>>, <<0, 46912>>,
  <<0, 41399>>, <<0, 36535>>, <<0, 32242>>, <<0, 28453>>, <<0, 25110>>, <<0, 22159>>, <<0, 19556>>, <<0, 17258>>,
  <<0, 15230>>, <<0, 13440>>, <<0, 11861>>, <<0, 10467>>, <<0, 9237>>, <<0, 8152>>, <<0, 7194>>, <<0, 6349>>,
  <<0, 5603>>, <<0, 4944>>, <<0, 4363>>, <<0, 3851>>, <<0, 3398>>, <<0, 2999>>, <<0, 2647>>, <<0, 2336>>,
  <<0, 2061>> >>

\* exp(-2^-j) in the same form, j = 4..20
EXPH == << <<939413, 62813>>, <<969233, 234476>>, <<984496, 437005>>, <<992217, 938260>>, <<996101, 369470>>, <<998048, 781107>>, <<999023, 914181>>, <<999511, 837939>>,
  <<999755, 889174>>, <<999877, 937137>>, <<999938, 966706>>, <<999969, 482887>>, <<999984, 741327>>, <<999992, 370634>>, <<999996, 185310>>, <<999998, 92653>>, <<999999, 46326>> >>

\* sqrt(k) = << hi, lo >> in the same form, k = 1..32
SQRTX == <<
  <<1000000, 0>>, <<1414213, 562373>>, <<1732050, 807569>>, <<2000000, 0>>, <<2236067, 977500>>, <<2449489, 742783>>, <<2645751, 311065>>, <<2828427, 124746>>,
  <<3000000, 0>>, <<3162277, 660168>>, <<3316624, 790355>>, <<3464101, 615138>>, <<3605551, 275464>>, <<3741657, 386774>>, <<3872983, 346207>>, <<4000000, 0>>,
  <<4123105, 625618>>, <<4242640, 687119>>, <<4358898, 943541>>, <<4472135, 955000>>, <<4582575, 694956>>, <<4690415, 759823>>, <<4795831, 523313>>, <<4898979, 485566>>,
  <<5000000, 0>>, <<5099019, 513593>>, <<5196152, 422707>>, <<5291502, 622129>>, <<5385164, 807135>>, <<5477225, 575052>>, <<5567764, 362830>>, <<5656854, 249492>> >>
\* round(2^28 * cos(2 pi k / 240)), k = 0..239
COS28 == <<
  268435456, 268343470, 268067575, 267607959, 266964938, 266138953, 265130570, 263940479,
  262569497, 261018563, 259288740, 257381213, 255297290, 253038399, 250606087, 248002024,
  245227991, 242285892, 239177743, 235905672, 232471924, 228878851, 225128916, 221224689,
  217168846, 212964166, 208613531, 204119922, 199486420, 194716200, 189812531, 184778774,
  179618379, 174334883, 168931906, 163413152, 157782402, 152043516, 146200428, 140257140,
  134217728, 128086329, 121867147, 115564443, 109182536, 102725802, 96198664, 89605596,
  82951118, 76239789, 69476208, 62665013, 55810870, 48918476, 41992557, 35037858,
  28059146, 21061203, 14048826, 7026821, 0, -7026821, -14048826, -21061203,
  -28059146, -35037858, -41992557, -48918476, -55810870, -62665013, -69476208, -76239789,
  -82951118, -89605596, -96198664, -102725802, -109182536, -115564443, -121867147, -128086329,
  -134217728, -140257140, -146200428, -152043516, -157782402, -163413152, -168931906, -174334883,
  -179618379, -184778774, -189812531, -194716200, -199486420, -204119922, -208613531, -212964166,
  -217168846, -221224689, -225128916, -228878851, -232471924, -235905672, -239177743, -242285892,
  -245227991, -248002024, -250606087, -253038399, -255297290, -257381213, -259288740, -261018563,
  -262569497, -263940479, -265130570, -266138953, -266964938, -267607959, -268067575, -268343470,
  -268435456, -268343470, -268067575, -267607959, -266964938, -266138953, -265130570, -263940479,
  -262569497, -261018563, -259288740, -257381213, -255297290, -253038399, -250606087, -248002024,
  -245227991, -242285892, -239177743, -235905672, -232471924, -228878851, -225128916, -221224689,
  -217168846, -212964166, -208613531, -204119922, -199486420, -194716200, -189812531, -184778774,
  -179618379, -174334883, -168931906, -163413152, -157782402, -152043516, -146200428, -140257140,
  -134217728, -128086329, -121867147, -115564443, -109182536, -102725802, -96198664, -89605596,
  -82951118, -76239789, -69476208, -62665013, -55810870, -48918476, -41992557, -35037858,
  -28059146, -21061203, -14048826, -7026821, 0, 7026821, 14048826, 21061203,
  28059146, 35037858, 41992557, 48918476, 55810870, 62665013, 69476208, 76239789,
  82951118, 89605596, 96198664, 102725802, 109182536, 115564443, 121867147, 128086329,
  134217728, 140257140, 146200428, 152043516, 157782402, 163413152, 168931906, 174334883,
  179618379, 184778774, 189812531, 194716200, 199486420, 204119922, 208613531, 212964166,
  217168846, 221224689, 225128916, 228878851, 232471924, 235905672, 239177743, 242285892,
  245227991, 248002024, 250606087, 253038399, 255297290, 257381213, 259288740, 261018563,
  262569497, 263940479, 265130570, 266138953, 266964938, 267607959, 268067575, 268343470 >>
====
