---------------------------- MODULE CounterTrace ----------------------------
(* Recorded executions of the real BlockingCounter must be behaviours of      *)
(* CounterAbs, and every decrement must happen-before the return of the wait. *)
EXTENDS CounterAbs, Sequences, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l, calls   \* indices of DecCall events of this round
vars == <<cAbsVars, tr, l, calls>>
Ev == Traces[tr].ev
E == Ev[l]
HB(i) == \A j \in DOMAIN E.nb : E.nb[j] # i
Init == CInit /\ tr \in 1..Len(Traces) /\ l = 1 /\ calls = {}
Step ==
  LET k == E.e IN
  CASE k = "Reset"    -> Reset(E.b, E.n) /\ calls' = {}
    [] k = "DecCall"  -> DecCall(E.b, E.k) /\ calls' = calls \cup {l}
    [] k = "DecRet"   -> DecRet(E.b, E.k, E.z = 1) /\ UNCHANGED calls
    [] k = "WaitCall" -> WaitCall(E.b) /\ UNCHANGED calls
    [] k = "WaitRet"  -> /\ WaitRet(E.b) /\ E.ok = 1
                         /\ \A i \in calls : HB(i)
                         /\ UNCHANGED calls
    [] k \in {"ThreadCreate", "ThreadExit", "ThreadJoin"} -> UNCHANGED <<cAbsVars, calls>>
    [] k = "End"      -> E.alive = 0 /\ UNCHANGED <<cAbsVars, calls>>
    [] OTHER -> FALSE       \* Race, Deadlock, Livelock, Assert, ...
Next ==
  \/ l <= Len(Ev) /\ Step /\ l' = l + 1 /\ tr' = tr
  \/ l > Len(Ev) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
