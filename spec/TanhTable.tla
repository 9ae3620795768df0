----------------------------- MODULE TanhTable -----------------------------
(* Generated by gen_tables.py: tanh(j/64) in units of 2^-20, j = 0..512.      *)
EXTENDS Integers, Sequences
TanhQ == <<
  0, 16383, 32757, 49116, 65451, 81754, 98017, 114233,
  130394, 146492, 162520, 178470, 194336, 210110, 225786, 241357,
  256816, 272157, 287374, 302462, 317414, 332226, 346891, 361406,
  375765, 389964, 404000, 417867, 431562, 445083, 458426, 471587,
  484565, 497357, 509960, 522374, 534595, 546624, 558458, 570097,
  581540, 592786, 603835, 614688, 625343, 635802, 646064, 656130,
  666002, 675680, 685164, 694457, 703560, 712474, 721200, 729741,
  738099, 746274, 754270, 762087, 769730, 777199, 784497, 791626,
  798589, 805389, 812027, 818506, 824830, 830999, 837018, 842889,
  848614, 854196, 859637, 864941, 870110, 875147, 880054, 884834,
  889490, 894024, 898438, 902736, 906920, 910993, 914956, 918813,
  922565, 926216, 929767, 933222, 936581, 939848, 943025, 946114,
  949117, 952036, 954873, 957631, 960312, 962916, 965447, 967907,
  970296, 972617, 974872, 977062, 979190, 981256, 983263, 985211,
  987104, 988941, 990725, 992458, 994139, 995772, 997357, 998896,
  1000389, 1001838, 1003245, 1004611, 1005936, 1007222, 1008470, 1009681,
  1010856, 1011996, 1013103, 1014176, 1015218, 1016228, 1017209, 1018160,
  1019082, 1019977, 1020846, 1021688, 1022505, 1023297, 1024066, 1024812,
  1025535, 1026236, 1026916, 1027576, 1028216, 1028836, 1029438, 1030022,
  1030588, 1031137, 1031669, 1032185, 1032685, 1033171, 1033641, 1034098,
  1034540, 1034969, 1035385, 1035788, 1036180, 1036559, 1036926, 1037283,
  1037629, 1037964, 1038289, 1038604, 1038909, 1039205, 1039492, 1039770,
  1040040, 1040302, 1040555, 1040801, 1041040, 1041271, 1041495, 1041712,
  1041922, 1042126, 1042324, 1042516, 1042702, 1042882, 1043057, 1043226,
  1043391, 1043550, 1043704, 1043854, 1043999, 1044139, 1044275, 1044407,
  1044535, 1044659, 1044780, 1044896, 1045009, 1045119, 1045225, 1045328,
  1045428, 1045525, 1045618, 1045709, 1045797, 1045883, 1045965, 1046046,
  1046123, 1046199, 1046272, 1046343, 1046411, 1046478, 1046542, 1046605,
  1046665, 1046724, 1046781, 1046836, 1046890, 1046942, 1046992, 1047041,
  1047088, 1047133, 1047178, 1047221, 1047262, 1047303, 1047342, 1047380,
  1047417, 1047452, 1047487, 1047520, 1047553, 1047584, 1047615, 1047644,
  1047673, 1047701, 1047728, 1047754, 1047779, 1047804, 1047827, 1047850,
  1047873, 1047894, 1047915, 1047936, 1047955, 1047974, 1047993, 1048011,
  1048028, 1048045, 1048061, 1048077, 1048093, 1048107, 1048122, 1048136,
  1048149, 1048163, 1048175, 1048188, 1048200, 1048211, 1048222, 1048233,
  1048244, 1048254, 1048264, 1048273, 1048283, 1048292, 1048301, 1048309,
  1048317, 1048325, 1048333, 1048340, 1048348, 1048355, 1048361, 1048368,
  1048374, 1048381, 1048387, 1048392, 1048398, 1048404, 1048409, 1048414,
  1048419, 1048424, 1048429, 1048433, 1048437, 1048442, 1048446, 1048450,
  1048454, 1048458, 1048461, 1048465, 1048468, 1048471, 1048475, 1048478,
  1048481, 1048484, 1048487, 1048489, 1048492, 1048495, 1048497, 1048499,
  1048502, 1048504, 1048506, 1048508, 1048511, 1048513, 1048515, 1048516,
  1048518, 1048520, 1048522, 1048523, 1048525, 1048527, 1048528, 1048530,
  1048531, 1048532, 1048534, 1048535, 1048536, 1048538, 1048539, 1048540,
  1048541, 1048542, 1048543, 1048544, 1048545, 1048546, 1048547, 1048548,
  1048549, 1048550, 1048550, 1048551, 1048552, 1048553, 1048553, 1048554,
  1048555, 1048555, 1048556, 1048557, 1048557, 1048558, 1048558, 1048559,
  1048559, 1048560, 1048560, 1048561, 1048561, 1048562, 1048562, 1048563,
  1048563, 1048564, 1048564, 1048564, 1048565, 1048565, 1048565, 1048566,
  1048566, 1048566, 1048567, 1048567, 1048567, 1048567, 1048568, 1048568,
  1048568, 1048568, 1048569, 1048569, 1048569, 1048569, 1048570, 1048570,
  1048570, 1048570, 1048570, 1048570, 1048571, 1048571, 1048571, 1048571,
  1048571, 1048571, 1048572, 1048572, 1048572, 1048572, 1048572, 1048572,
  1048572, 1048572, 1048573, 1048573, 1048573, 1048573, 1048573, 1048573,
  1048573, 1048573, 1048573, 1048573, 1048573, 1048574, 1048574, 1048574,
  1048574, 1048574, 1048574, 1048574, 1048574, 1048574, 1048574, 1048574,
  1048574, 1048574, 1048574, 1048574, 1048574, 1048575, 1048575, 1048575,
  1048575, 1048575, 1048575, 1048575, 1048575, 1048575, 1048575, 1048575,
  1048575, 1048575, 1048575, 1048575, 1048575, 1048575, 1048575, 1048575,
  1048575, 1048575, 1048575, 1048575, 1048575, 1048575, 1048575, 1048575,
  1048575, 1048575, 1048575, 1048575, 1048575, 1048575, 1048575, 1048575,
  1048576, 1048576, 1048576, 1048576, 1048576, 1048576, 1048576, 1048576,
  1048576, 1048576, 1048576, 1048576, 1048576, 1048576, 1048576, 1048576,
  1048576, 1048576, 1048576, 1048576, 1048576, 1048576, 1048576, 1048576,
  1048576
>>
TanhAt(j) == IF j >= 0 THEN TanhQ[j + 1] ELSE -TanhQ[-j + 1]

(* floor(a * t / 2^20) for 0 <= a <= 2^18, |t| <= 2^20 *)
ScaleQ(a, t) ==
  LET e == a * (t \div 1024) IN (e \div 1024) + (((e % 1024) * 1024 + a * (t % 1024)) \div 1048576)

(* The tanh stage with zero z and amplitude a maps x to z + a*tanh((x-z)/a):  *)
(* never outside [z-a, z+a], exactly z-a / z+a beyond 8 amplitudes, and within *)
(* 3 of the exact value otherwise; the exact value is bracketed by the table.  *)
TanhStageOK(z, a, x, v) ==
  IF x >= z + 8 * a THEN v = z + a
  ELSE IF x <= z - 8 * a THEN v = z - a
  ELSE LET d == (x - z) * 64
           j == d \div a
           j2 == IF d % a = 0 THEN j ELSE j + 1
       IN /\ v >= z - a /\ v <= z + a
          /\ v - z >= ScaleQ(a, TanhAt(j)) - 3
          /\ v - z <= ScaleQ(a, TanhAt(j2)) + 4
=============================================================================
