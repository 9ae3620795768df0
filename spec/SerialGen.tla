----------------------------- MODULE SerialGen -----------------------------
(***************************************************************************)
(* Programs for concurrent callers, as text "ops|ops|...", one part per        *)
(* caller.  i/f: legacy integer/float GEMM, s: legacy thread limit, r: release  *)
(* legacy resources, g: GEMM on the caller's own context, t: its limit, x: a    *)
(* new context.                                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, IOUtils
VARIABLES prog, emitted
vars == <<prog, emitted>>
Kind == IOEnv.KIND           \* "legacy" | "own" | "mix" | "solo": one caller whose GEMMs use several threads
NCases == 12
Pick(S) == RandomElement(S)
S(n) == ToString(n)
LegacyOp(z) == LET w == Pick(1..20) IN
  IF w <= 6 THEN "i" \o S(Pick(0..NCases-1)) ELSE IF w <= 10 THEN "f" \o S(Pick(0..NCases-1))
  ELSE IF w <= 15 THEN "s" \o S(Pick({1, 2, 3, 4})) ELSE "r"
OwnOp(z) == LET w == Pick(1..20) IN
  IF w <= 11 THEN "g" \o S(Pick(0..NCases-1)) ELSE IF w <= 17 THEN "t" \o S(Pick({1, 2, 3, 4})) ELSE "x"
Op(z) == IF Kind = "legacy" THEN LegacyOp(z) ELSE IF Kind \in {"own", "solo"} THEN OwnOp(z)
         ELSE IF Pick({0, 1}) = 0 THEN LegacyOp(z) ELSE OwnOp(z)
NOps(z) == Pick(1..4)
RECURSIVE Ops(_, _)
Ops(z, n) == IF n = 0 THEN "" ELSE Op(z) \o (IF n = 1 THEN "" ELSE "," \o Ops(z, n - 1))
MaxCallers == IF Kind = "solo" THEN 1 ELSE 3
MinCallers == IF Kind = "solo" THEN 1 ELSE 2
First(z) == IF Kind = "solo" THEN "t" \o S(Pick({2, 3, 4})) \o ",g" \o S(Pick({2, 3, 5, 7, 9, 11})) \o "," ELSE ""
Init == prog = <<>> /\ emitted = FALSE
AddCaller == Len(prog) < MaxCallers /\ \E n \in {NOps(prog)} : \E p \in {First(prog) \o Ops(prog, n)} : prog' = Append(prog, p) /\ UNCHANGED emitted
RECURSIVE Join(_, _)
Join(p, i) == IF i > Len(p) THEN "" ELSE (IF i > 1 THEN "|" ELSE "") \o p[i] \o Join(p, i + 1)
Emit == Len(prog) >= MinCallers /\ ~emitted /\ (Len(prog) = MaxCallers \/ Pick(1..2) = 1) /\ PrintT("PROG " \o Join(prog, 1)) /\ emitted' = TRUE /\ UNCHANGED prog
Next == ~emitted /\ (AddCaller \/ Emit)
Spec == Init /\ [][Next]_vars
=============================================================================
