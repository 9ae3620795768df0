---------------------------- MODULE PoolUseGen ----------------------------
(* Histories of worker pools: tasks per execution, scratch each reserves, which entry point, and whether the pool is
   destroyed afterwards. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Depth == atoi(IOEnv.HLEN)
VARIABLES hist, phase
vars == <<hist, phase>>
Pick(S) == RandomElement(S)
Op(z) == <<"P", Pick({1, 1, 2, 3, 4, 5, 8, 13}), Pick({0, 0, 1, 63, 64, 65, 1000, 5000, 100000}), Pick({0, 1}), IF Pick(1..4) = 1 THEN 1 ELSE 0>>
Init == hist = <<>> /\ phase = "gen"
Next ==
  \/ /\ phase = "gen" /\ Len(hist) < Depth
     /\ \E o \in {Op(Len(hist))} : hist' = Append(hist, o) /\ UNCHANGED phase
  \/ /\ phase = "gen" /\ Len(hist) >= Depth
     /\ phase' = "emitted" /\ UNCHANGED hist
     /\ PrintT("HIST " \o ToJson(hist))
Spec == Init /\ [][Next]_vars
=============================================================================
