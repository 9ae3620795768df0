------------------------------ MODULE MetaGen ------------------------------
(***************************************************************************)
(* Calls of the generated ARM kernels, on one workers pool per history:       *)
(*   G exec kern m n k lpad rpad spad threads rot pat seed at_end             *)
(*     exec 0/1: pack rhs / lhs, 2/3: the cache-friendly variants             *)
(*     kern 0/1/2: 2x4x8, 1x8x8, 3x3x8                                        *)
(*     rot -1: real workers pool; >= 0: tasks one after another from task rot *)
(* OP = "X": one-dimensional transformations,                                 *)
(*   X op count threads rot seed at_end                                       *)
(* OP = "L": the older entry points, L m n k threads    rot pat seed at_end   *)
(* OP = "LS": the same, small and multi-threaded                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Depth == atoi(IOEnv.HLEN)
Op == IOEnv.OP
VARIABLES hist, emitted
vars == <<hist, emitted>>
Pick(S) == RandomElement(S)
Bit(z) == Pick({0, 1})
Near == {7, 8, 9, 11, 12, 13, 15, 16, 17, 23, 24, 25, 31, 32, 33, 48, 49, 63, 64, 65}
Size(z) == LET w == Pick(1..20) IN IF w <= 2 THEN 1 ELSE IF w <= 9 THEN Pick(2..9) ELSE IF w <= 16 THEN Pick(Near) ELSE Pick(66..150)
Deep(z) == LET w == Pick(1..20) IN IF w <= 10 THEN Pick(1..24) ELSE IF w <= 17 THEN Pick(Near) ELSE Pick(66..300)
Pad(z) == IF Pick(1..2) = 1 THEN 0 ELSE Pick({1, 2, 3, 7, 8, 29})
Thr(z) == Pick({1, 1, 2, 3, 4, 5, 7})
Rot(z) == Pick({-1, 0, 1, 2, 3})
Shape(z) == LET w == Pick(1..10) IN
  IF w <= 3 THEN <<Pick({20, 31, 64, 70, 96}), Pick({20, 40, 64, 101, 131}), Pick({64, 65, 100, 128})>>
  ELSE IF w = 4 THEN <<Pick({1, 2}), Pick(150..900), Pick({32, 64, 65, 90})>>
  ELSE IF w = 5 THEN <<Pick(150..900), Pick({1, 2, 4}), Pick({32, 64, 65, 90})>>
  ELSE <<Size(z), Size(z), Deep(z)>>
NewCall(z) ==
  IF Op = "G" THEN <<"G", Pick(0..3), Pick(0..2)>> \o Shape(z) \o <<Pad(z), Pad(z), Pad(z), Thr(z), Rot(z), Pick(0..5), Pick(1..1000000), Bit(z)>>
  ELSE IF Op = "X" THEN <<"X", Pick(0..4), IF Pick(1..4) = 1 THEN Pick({16000, 24001, 32007, 48015, 60003}) ELSE IF Pick(1..2) = 1 THEN Pick(1..50) ELSE Pick(51..400), Thr(z), Rot(z), Pick(1..1000000), Bit(z)>>
  ELSE IF Op = "LS" THEN <<"L", Pick({9, 20, 31, 64}), Pick({9, 20, 40, 64}), Pick({64, 65, 100}), Pick({2, 3, 4}), 0, Pick(0..5), Pick(1..1000000), Bit(z)>>
  ELSE <<"L">> \o (LET w == Pick(1..12) IN
         IF w = 1 THEN <<Pick({1, 2, 3, 5}), Pick(20000..60000), Pick({8, 9, 16, 17, 24})>>
         ELSE IF w = 2 THEN <<1, Pick(100..1500), Pick({16, 33, 100, 1535, 1536, 2048})>>
         ELSE IF w = 3 THEN <<Pick(100..900), 1, Pick({16, 33, 100, 1535, 1536, 2047})>>
         ELSE IF w = 4 THEN <<Pick({2, 3, 9}), Pick({500, 517, 1030}), Pick({1024, 1031, 2048})>> ELSE Shape(z))
       \o <<Thr(z), Rot(z), Pick(0..5), Pick(1..1000000), Bit(z)>>
Init == hist = <<>> /\ emitted = FALSE
Next ==
  \/ Len(hist) < Depth /\ \E c \in {NewCall(hist)} : hist' = Append(hist, c) /\ UNCHANGED emitted
  \/ Len(hist) >= Depth /\ ~emitted /\ emitted' = TRUE /\ PrintT("HIST " \o ToJson(hist)) /\ UNCHANGED hist
Spec == Init /\ [][Next]_vars
=============================================================================
