----------------------------- MODULE KernelGen -----------------------------
(***************************************************************************)
(* Sequences of kernel runs (which kernel, whether it starts a sum, how many  *)
(* levels of cells, destination strides, operand pattern), generated by TLC.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Depth == atoi(IOEnv.HLEN)
VARIABLES hist, phase
vars == <<hist, phase>>
Pick(S) == RandomElement(S)
Cells(z) == LET w == Pick(1..10) IN IF w <= 5 THEN Pick(1..9) ELSE IF w <= 8 THEN Pick(10..40) ELSE Pick({63, 64, 65, 100, 128, 200})
Op(z) == <<"K", Pick(0..83), Pick({0, 0, 16, 48, 1024}), Cells(z), Pick(0..11), Pick({0, 0, 1, 1, 2, 3, 4}), Pick(1..1000000)>>
Init == hist = <<>> /\ phase = "gen"
Next ==
  \/ /\ phase = "gen" /\ Len(hist) < Depth
     /\ \E o \in {Op(Len(hist))} : hist' = Append(hist, o) /\ UNCHANGED phase
  \/ /\ phase = "gen" /\ Len(hist) >= Depth
     /\ phase' = "emitted" /\ UNCHANGED hist
     /\ PrintT("HIST " \o ToJson(hist))
Spec == Init /\ [][Next]_vars
=============================================================================
