----------------------------- MODULE GemmTrace -----------------------------
(***************************************************************************)
(* Conformance: recorded histories of GEMM calls on a context (C01-C04).     *)
(* Context state that a user sets (threads, cache sizes) is part of the      *)
(* history but, by C03, must not influence what a call writes; `memo` holds   *)
(* what each call (its inputs) wrote first.                                   *)
(* A call event carries the entries to judge (pts: the operand row and        *)
(* column, offsets, the entry's own stage parameters, the value found), the   *)
(* addresses outside the result that changed (odd), the result addresses that *)
(* kept their previous contents (kept), a fingerprint h of all result entries *)
(* and whether repeating the call changed an entry (unstable).                *)
(***************************************************************************)
EXTENDS Gemm, TLC, Json, IOUtils

Aspect == IOEnv.ASPECT
Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tr, l,
  threads, cache,     \* the context's settings
  memo                \* call inputs -> fingerprint of what it wrote

vars == <<tr, l, threads, cache, memo>>
Ev == Traces[tr].ev
E == Ev[l]

Init ==
  /\ tr \in 1..Len(Traces) /\ l = 1
  /\ threads = 1 /\ cache = <<0, 0, 0>>
  /\ memo = [x \in {} |-> 0]

Fine(e) == e.fault = 0

(* C01 *)
PtAcc(p) == p.v = Dot(p.a, p.b, p.ao, p.bo)
FullOK(e) ==
  LET f == e.full IN
  \A a \in 0..(Len(f.C) - 1) :
    IF IsResultAddr(e.m, e.n, e.so, e.ss, a)
    THEN LET r == RowOf(e.so, e.ss, a)  c == ColOf(e.so, e.ss, a)
         IN f.C[a + 1] = Dot(Row(f.A, e.lo, e.ls, r, e.k), Col(f.B, e.ro, e.rs, c, e.k), f.ao[r + 1], f.bo[c + 1])
    ELSE f.C[a + 1] = f.fill
C01OK(e) ==
  /\ Fine(e)
  /\ \A i \in DOMAIN e.pts : Len(e.pts[i].st) = 0 => PtAcc(e.pts[i])
  /\ ("full" \in DOMAIN e) => FullOK(e)

(* C02 *)
C02OK(e) ==
  /\ Fine(e)
  /\ \A i \in DOMAIN e.pts :
       LET p == e.pts[i] IN PipelineOK(p.st, Dot(p.a, p.b, p.ao, p.bo), p.v)

(* C03 *)
C03OK(e) ==
  /\ Fine(e)
  /\ e.unstable = 0
  /\ (e.key \in DOMAIN memo) => memo[e.key] = e.h

(* C04 *)
C04OK(e) ==
  /\ Fine(e)                                          \* no access to the guard pages
  /\ \A i \in DOMAIN e.odd : IsResultAddr(e.m, e.n, e.so, e.ss, e.odd[i])
  /\ \A i \in DOMAIN e.kept : ~IsResultAddr(e.m, e.n, e.so, e.ss, e.kept[i])

(* C10: with scratch blocks in guarded memory of exactly the requested size *)
C10OK(e) == C01OK(e) /\ C04OK(e)

CallOK(e) ==
  CASE Aspect = "C01" -> C01OK(e)
    [] Aspect = "C02" -> C02OK(e)
    [] Aspect = "C03" -> C03OK(e)
    [] Aspect = "C04" -> C04OK(e)
    [] Aspect = "C10" -> C10OK(e)

Call(e) ==
  /\ IF CallOK(e) THEN TRUE ELSE FALSE      \* (a state predicate: no branching in TLC)
  /\ memo' = IF "h" \in DOMAIN e /\ e.key \notin DOMAIN memo THEN memo @@ (e.key :> e.h) ELSE memo
  /\ UNCHANGED <<threads, cache>>

Step ==
  CASE E.op = "T" -> threads' = E.n /\ UNCHANGED <<cache, memo>>
    [] E.op = "C" -> cache' = <<E.l1, E.l2, E.f>> /\ UNCHANGED <<threads, memo>>
    [] E.op = "N" -> threads' = 1 /\ cache' = <<0, 0, 0>> /\ UNCHANGED memo
    [] E.op = "G" -> Call(E)

Next ==
  \/ /\ l <= Len(Ev) /\ Step /\ l' = l + 1 /\ tr' = tr
  \/ /\ l > Len(Ev) /\ UNCHANGED vars

Spec == Init /\ [][Next]_vars
=============================================================================
