----------------------------- MODULE LegacyGen -----------------------------
(***************************************************************************)
(* Histories of the legacy eight-bit API: thread-count changes, resource      *)
(* releases, integer and float calls, and repeats of earlier calls.            *)
(*   T n | F | G float ta tb tc m n k lpad rpad spad depth pattern seed at_end *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Depth == atoi(IOEnv.HLEN)
Big == atoi(IOEnv.BIG)
VARIABLES hist, calls, emitted
vars == <<hist, calls, emitted>>
Pick(S) == RandomElement(S)
Bit(z) == Pick({0, 1})
Near == {11, 12, 13, 15, 16, 17, 23, 24, 25, 31, 32, 33, 48, 49, 63, 64, 65}
Size(z) == LET w == Pick(1..20) IN IF w <= 3 THEN 1 ELSE IF w <= 9 THEN Pick(2..9) ELSE IF w <= 16 THEN Pick(Near) ELSE IF Big = 1 THEN Pick(66..200) ELSE Pick(Near)
Deep(z) == LET w == Pick(1..20) IN IF w <= 8 THEN Pick(1..20) ELSE IF w <= 15 THEN Pick(Near) ELSE IF Big = 1 /\ w >= 19 THEN Pick({1000, 1535, 1536, 2047, 2048, 2049}) ELSE Pick(66..300)
Thr(z) == Pick({48, 64, 70, 96, 100, 131, 193})
(* paddings: mostly none for two of the three, so that packed layouts are common *)
Pad(z) == IF Pick(1..3) <= 2 THEN 0 ELSE Pick({1, 2, 3, 7, 8, 29})
Shape(z) == LET w == Pick(1..10) IN
  IF w <= 3 THEN <<Thr(z), Thr(z), Pick({64, 65, 100, 128})>>
  ELSE IF w = 4 THEN <<1, Size(z), Deep(z)>> ELSE IF w = 5 THEN <<Size(z), 1, Deep(z)>>
  ELSE IF w = 6 /\ Pick(1..4) = 1 THEN <<Pick({0, 1, 5}), Pick({0, 3}), Size(z)>>
  ELSE <<Size(z), Size(z), Deep(z)>>
NewCall(z) == \* the layout the ARM fast path handles (row-major a, column-major b) is drawn more often
  LET fast == Pick(1..3) = 1 IN
  <<Bit(z), IF fast THEN 1 ELSE Bit(z), IF fast THEN 0 ELSE Bit(z), Bit(z)>> \o Shape(z) \o
  (IF fast THEN <<0, 0, Pick({0, 0, 1})>> ELSE <<Pad(z), Pad(z), Pad(z)>>) \o <<IF Pick(1..4) = 1 THEN 1 ELSE 0, Pick({0, 1, 2, 3, 4, 5}), Pick(1..1000000), Bit(z)>>
Init == hist = <<>> /\ calls = <<>> /\ emitted = FALSE
Threads == hist' = Append(hist, <<"T", Pick({0, 1, 2, 3, 4, 5, 8})>>) /\ UNCHANGED <<calls, emitted>>
Free == hist' = Append(hist, <<"F">>) /\ UNCHANGED <<calls, emitted>>
Call == \E c \in {NewCall(hist)} : hist' = Append(hist, <<"G">> \o c) /\ calls' = Append(calls, c) /\ UNCHANGED emitted
Call2 == Call
Call3 == Call
Repeat == calls # <<>> /\ hist' = Append(hist, <<"G">> \o Pick({calls[i] : i \in DOMAIN calls})) /\ UNCHANGED <<calls, emitted>>
Next ==
  \/ Len(hist) < Depth /\ (Threads \/ Free \/ Call \/ Call2 \/ Call3 \/ Repeat)
  \/ Len(hist) >= Depth /\ ~emitted /\ emitted' = TRUE /\ PrintT("HIST " \o ToJson(hist)) /\ UNCHANGED <<hist, calls>>
Spec == Init /\ [][Next]_vars
=============================================================================
