----------------------------- MODULE PoolTrace -----------------------------
(***************************************************************************)
(* Conformance: every recorded execution of the real worker pool must be a *)
(* behaviour of PoolAbs.  TRACES is a file of JSON lines, one execution per *)
(* line, with field ev = sequence of events; each event has                 *)
(*   e  kind,  t  thread,  nb  the earlier events that do NOT happen-before *)
(*   it (happens-before derived only from locks and declared memory orders).*)
(* Aspect = "C05": run-exactly-once / completion / termination.              *)
(* Aspect = "C06": happens-before, races, allocator exclusivity.             *)
(* An execution the specification does not allow shows up as a deadlock of  *)
(* this specification at event `l` of execution `tr`.                        *)
(***************************************************************************)
EXTENDS PoolAbs, Sequences, TLC, Json, IOUtils

Aspect == IOEnv.ASPECT
Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tr, l,
  callIdx,  \* index of the current batch's ExecCall event
  endIdx    \* task -> index of its TaskEnd event in the current batch

vars == <<absVars, tr, l, callIdx, endIdx>>

Ev == Traces[tr].ev
E == Ev[l]
HB(i) == \A j \in DOMAIN E.nb : E.nb[j] # i    \* event i happens-before this event

C05 == Aspect = "C05"
C06 == Aspect = "C06"

Init ==
  /\ AbsInit
  /\ tr \in 1..Len(Traces) /\ l = 1
  /\ callIdx = 0 /\ endIdx = <<>>

Same == UNCHANGED <<callIdx, endIdx>>
Skip == UNCHANGED <<absVars, callIdx, endIdx>>

(* For C06 the exactly-once bookkeeping of PoolAbs is not judged (C05 does), *)
(* only who may run concurrently with whom and who sees what.                *)
Step ==
  LET k == E.e IN
  CASE k = "ThreadCreate" -> (IF C05 THEN ThreadCreate(E.t, E.c) ELSE UNCHANGED absVars) /\ Same
    [] k = "ThreadExit"   -> (IF C05 THEN ThreadExit(E.t) ELSE UNCHANGED absVars) /\ Same
    [] k = "ThreadJoin"   -> Skip
    [] k = "ExecCall"     -> (IF C05 THEN ExecCall(E.b, E.n) ELSE running' = running /\ batch' = E.b /\ UNCHANGED <<phase, ntasks, st, threads>>)
                             /\ callIdx' = l /\ endIdx' = [i \in {} |-> 0]
    [] k = "TaskBegin"    ->
         /\ IF C05
            THEN TaskBegin(E.b, E.k, E.t, E.k)
            ELSE /\ HB(callIdx)                       \* the caller's writes are visible
                 /\ \A r \in running : r.a # E.a      \* scratch not shared
                 /\ running' = running \cup {[k |-> E.k, t |-> E.t, a |-> E.a]}
                 /\ UNCHANGED <<phase, batch, ntasks, st, threads>>
         /\ Same
    [] k = "TaskEnd"      ->
         /\ IF C05
            THEN TaskEnd(E.b, E.k, E.t)
            ELSE /\ running' = {r \in running : r.k # E.k}
                 /\ UNCHANGED <<phase, batch, ntasks, st, threads>>
         /\ E.ok = 1                                  \* scratch contents kept, inputs seen
         /\ endIdx' = [i \in DOMAIN endIdx \cup {E.k} |-> IF i = E.k THEN l ELSE endIdx[i]]
         /\ UNCHANGED callIdx
    [] k = "TaskDelete"   ->                          \* only after the task is done
         /\ (C05 => (E.b = batch /\ E.k \in DOMAIN st /\ st[E.k] = "done"))
         /\ (C06 => (E.k \in DOMAIN endIdx /\ HB(endIdx[E.k])))
         /\ Skip
    [] k = "ExecRet"      ->
         /\ IF C05 THEN ExecRet(E.b)
            ELSE /\ \A i \in DOMAIN endIdx : HB(endIdx[i])   \* tasks' writes are visible
                 /\ UNCHANGED absVars
         /\ E.ok = 1
         /\ Same
    [] k = "DestroyCall"  -> (IF C05 THEN DestroyCall ELSE UNCHANGED absVars) /\ Same
    [] k = "DestroyRet"   -> (IF C05 THEN DestroyRet ELSE UNCHANGED absVars) /\ Same
    [] k = "End"          -> (C05 => (E.alive = 0 /\ phase = "destroyed")) /\ Skip
    [] k = "Race"         -> C05 /\ Skip     \* never allowed for C06
    [] OTHER              -> FALSE           \* Deadlock, Livelock, Assert, Abort, UseAfterFree, ...

Next ==
  \/ /\ l <= Len(Ev)
     /\ Step
     /\ l' = l + 1 /\ tr' = tr
  \/ /\ l > Len(Ev)
     /\ UNCHANGED vars

Spec == Init /\ [][Next]_vars
=============================================================================
