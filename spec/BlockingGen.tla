----------------------------- MODULE BlockingGen -----------------------------
(* Queries for C10, generated by TLC -simulate. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Depth == atoi(IOEnv.HLEN)
VARIABLES hist, emitted
vars == <<hist, emitted>>
Pick(S) == RandomElement(S)
Dim(z) == LET w == Pick(1..10) IN IF w <= 4 THEN Pick(1..33) ELSE IF w <= 7 THEN Pick(1..300) ELSE IF w <= 9 THEN Pick(1..5000) ELSE Pick(1..100000)
Cache(z) == Pick({1, 2, 15, 64, 100, 500, 1000, 4096, 5000, 16384, 20000, 32768, 65536, 100000, 262144, 1000000, 4000000})
Block == hist' = Append(hist, <<"B", Pick(0..4), Dim(hist), Dim(hist), Dim(hist), Pick(1..16), Cache(hist), Cache(hist), Pick({1, 5, 25, 50, 75, 99, 100})>>)
Help == hist' = Append(hist, <<"H", Pick({1, 2, 3, 4, 8, 12, 16, 24, 32, 64}), LET w == Pick(1..3) IN IF w = 1 THEN Pick(0..200) ELSE IF w = 2 THEN Pick({2 ^ i : i \in 0..29} \cup {2 ^ i - 1 : i \in 1..29} \cup {2 ^ i + 1 : i \in 1..29}) ELSE Pick(0..1000000000)>>)
Wide == hist' = Append(hist, <<"P", LET w == Pick(1..2) IN IF w = 1 THEN Pick(1..1000000) ELSE Pick({2 ^ i : i \in 0..28}), Pick({0, 1, 2, 65535, 65536, 1073741824, 2147483647})>>)
Sweep == Len(hist) = 0 /\ hist' = Append(hist, <<"S", Pick(0..4), Pick(1..1000000), 30000>>)
Init == hist = <<>> /\ emitted = FALSE
Next ==
  \/ Len(hist) < Depth /\ (Block \/ Help \/ Wide \/ Sweep) /\ UNCHANGED emitted
  \/ Len(hist) >= Depth /\ ~emitted /\ emitted' = TRUE /\ PrintT("HIST " \o ToJson(hist)) /\ UNCHANGED hist
Spec == Init /\ [][Next]_vars
=============================================================================
