------------------------------ MODULE ProfGen ------------------------------
(***************************************************************************)
(* Programs for the profiler, "ops|ops|...": the first part starts (S) and     *)
(* finishes (F) profiling, starts (c<i>) and joins (j<i>) the other threads;   *)
(* all threads: r register, p<l> enter label l, o leave, u<l> update, g a GEMM *)
(* on an unregistered thread, y yield.                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, IOUtils
VARIABLES main, started, joined, state, sessions, depth, regd, thr, emitted
vars == <<main, started, joined, state, sessions, depth, regd, thr, emitted>>
NThr == atoi(IOEnv.NTHR)
Pick(S) == RandomElement(S)
S(n) == ToString(n)
(* ops of a labelled thread *)
RECURSIVE Ops(_, _, _, _)
Ops(z, n, d, r) ==
  IF n = 0 THEN ""
  ELSE LET w == Pick(1..20) IN
       IF w <= 6 /\ ~r THEN "r," \o Ops(z, n - 1, d, TRUE)
       ELSE IF w <= 13 THEN "p" \o S(Pick(0..4)) \o "," \o Ops(z, n - 1, d + 1, r)
       ELSE IF w <= 16 /\ d > 0 THEN "o," \o Ops(z, n - 1, d - 1, r)
       ELSE IF w <= 18 /\ d > 0 THEN "u" \o S(Pick(0..4)) \o "," \o Ops(z, n - 1, d, r)
       ELSE IF w = 19 /\ ~r /\ Pick(1..4) = 1 THEN "g," \o Ops(z, n - 1, d, r)
       ELSE "y," \o Ops(z, n - 1, d, r)
Init == /\ main = "" /\ started = 0 /\ joined = {} /\ state = "off" /\ sessions = 0 /\ depth = 0 /\ regd = FALSE
        /\ thr = <<>> /\ emitted = FALSE
Add(x) == main' = main \o x \o ","
Thread == /\ Len(thr) < NThr /\ \E n \in {Pick(2..7)} : \E p \in {Ops(thr, n, 0, FALSE)} : thr' = Append(thr, p)
          /\ UNCHANGED <<main, started, joined, state, sessions, depth, regd, emitted>>
Begin == Len(thr) = NThr /\ ~emitted
StartP == Begin /\ state = "off" /\ sessions < 2 /\ state' = "on" /\ Add("S") /\ UNCHANGED <<started, joined, sessions, depth, regd, thr, emitted>>
FinP == Begin /\ state = "on" /\ state' = "off" /\ sessions' = sessions + 1 /\ Add("F") /\ UNCHANGED <<started, joined, depth, regd, thr, emitted>>
Create == Begin /\ started < NThr /\ started' = started + 1 /\ Add("c" \o S(started + 1)) /\ UNCHANGED <<joined, state, sessions, depth, regd, thr, emitted>>
Join == Begin /\ \E i \in (1..started) \ joined : joined' = joined \cup {i} /\ Add("j" \o S(i)) /\ UNCHANGED <<started, state, sessions, depth, regd, thr, emitted>>
Reg == Begin /\ ~regd /\ regd' = TRUE /\ Add("r") /\ UNCHANGED <<started, joined, state, sessions, depth, thr, emitted>>
Push == Begin /\ depth < 3 /\ Len(main) < 60 /\ depth' = depth + 1 /\ Add("p" \o S(Pick(0..4))) /\ UNCHANGED <<started, joined, state, sessions, regd, thr, emitted>>
Pop == Begin /\ depth > 0 /\ Len(main) < 60 /\ depth' = depth - 1 /\ Add("o") /\ UNCHANGED <<started, joined, state, sessions, regd, thr, emitted>>
Upd == Begin /\ depth > 0 /\ Len(main) < 60 /\ Add("u" \o S(Pick(0..4))) /\ UNCHANGED <<started, joined, state, sessions, depth, regd, thr, emitted>>
RECURSIVE Txt(_, _)
Txt(p, i) == IF i > Len(p) THEN "" ELSE "|" \o p[i] \o Txt(p, i + 1)
Emit == Begin /\ state = "off" /\ sessions > 0 /\ started = NThr /\ joined = 1..NThr
        /\ PrintT("PROG " \o main \o Txt(thr, 1)) /\ emitted' = TRUE /\ UNCHANGED <<main, started, joined, state, sessions, depth, regd, thr>>
Next == Thread \/ StartP \/ FinP \/ Create \/ Join \/ Reg \/ Push \/ Pop \/ Upd \/ Emit
Spec == Init /\ [][Next]_vars
=============================================================================
