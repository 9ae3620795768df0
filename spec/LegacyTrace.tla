---------------------------- MODULE LegacyTrace ----------------------------
(***************************************************************************)
(* Conformance for C11: recorded histories of the legacy eight-bit API.  The   *)
(* global state (thread limit, persistent resources) is part of the history    *)
(* and must not influence a call's result: memo holds what each call wrote     *)
(* first.  A float result is the exact sum rounded to single precision, times  *)
(* a power of two; the harness divides that factor out again.                  *)
(***************************************************************************)
EXTENDS Floats, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l, threads, held, memo
vars == <<tr, l, threads, held, memo>>
Ev == Traces[tr].ev
E == Ev[l]
Init == tr \in 1..Len(Traces) /\ l = 1 /\ threads = 0 /\ held = FALSE /\ memo = [x \in {} |-> 0]

(* q8: offset, multiplication, rounding shift, clamp *)
PtOK(f, p) ==
  LET d == Dot(p.a, p.b, p.ao, p.bo)
  IN IF f = 1 THEN p.v = Float24(d) ELSE p.v = Pipeline(p.st, 1, d)
CallOK(e) ==
  /\ e.fault = 0
  /\ \A i \in DOMAIN e.pts : PtOK(e.f, e.pts[i])
  /\ \A i \in DOMAIN e.odd : IsResultAddr(e.m, e.n, e.so, e.ss, e.odd[i])
  /\ \A i \in DOMAIN e.kept : ~IsResultAddr(e.m, e.n, e.so, e.ss, e.kept[i])
  /\ e.unstable = 0
  /\ e.key \in DOMAIN memo => memo[e.key] = e.h
Step ==
  CASE E.op = "T" -> E.fault = 0 /\ threads' = E.n /\ held' = TRUE /\ UNCHANGED memo
    [] E.op = "F" -> E.fault = 0 /\ threads' = 0 /\ held' = FALSE /\ UNCHANGED memo
    [] E.op = "G" -> /\ IF CallOK(E) THEN TRUE ELSE FALSE
                     /\ memo' = IF E.key \in DOMAIN memo THEN memo ELSE memo @@ (E.key :> E.h)
                     /\ held' = TRUE /\ UNCHANGED threads
Next ==
  \/ l <= Len(Ev) /\ Step /\ l' = l + 1 /\ tr' = tr
  \/ l > Len(Ev) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
