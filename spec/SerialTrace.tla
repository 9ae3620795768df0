---------------------------- MODULE SerialTrace ----------------------------
(***************************************************************************)
(* Conformance for C14: an execution of concurrent callers of the real library *)
(* must be a behaviour of SerialAbs in which every GEMM returns what it returns  *)
(* alone (`Alone` events), without a race, use of freed memory or deadlock, and  *)
(* at the end (after a final release) no library thread and no memory is left.    *)
(* The linearisation points are hidden, so `cfgs` holds every state SerialAbs can  *)
(* be in after the events seen so far; the execution is rejected when none is left. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l, cfgs, alone, mylim, mine   \* mylim, mine: per caller, limit and workers of its own context
vars == <<tr, l, cfgs, alone, mylim, mine>>
Ev == Traces[tr].ev
E == Ev[l]
CallersOf(ev) == {ev[i].t : i \in {j \in DOMAIN ev : ev[j].e = "Call"}}
A == INSTANCE SerialAbs WITH Callers <- {}, DefaultLim <- 1, lim <- 0, workers <- 0, pend <- <<>>
(* "C14": everything; "C06": only that memory is handed over without races *)
OnlyRaces == IOEnv.ASPECT = "C06"
Init ==
  /\ tr \in 1..Len(Traces) /\ l = 1
  /\ cfgs = {[lim |-> 1, workers |-> 0, pend |-> [t \in CallersOf(Ev) |-> A!Idle]]}
  /\ alone = [x \in {} |-> 0]
  /\ mylim = [t \in CallersOf(Ev) |-> 1] /\ mine = [t \in CallersOf(Ev) |-> 0]
(* workers created by t from event i to its next return *)
RECURSIVE Created(_, _, _)
Created(ev, i, t) ==
  IF i > Len(ev) \/ (ev[i].e = "Ret" /\ ev[i].t = t) THEN 0
  ELSE (IF ev[i].e = "ThreadCreate" /\ ev[i].t = t THEN 1 ELSE 0) + Created(ev, i + 1, t)
RECURSIVE CallAt(_, _, _)
CallAt(ev, i, t) == IF ev[i].e = "Call" /\ ev[i].t = t THEN i ELSE CallAt(ev, i - 1, t)
CreatedNow(t) == Created(Ev, CallAt(Ev, l - 1, t), t)

AbsOp(o) == IF o \in {"i", "f"} THEN "gemm" ELSE IF o = "s" THEN "set" ELSE IF o = "r" THEN "free"
            ELSE IF o = "g" THEN "own" ELSE IF o = "t" THEN "lim_own" ELSE "new_own"

(* the configurations reachable from s by one linearisation step *)
Lin1(s) == {[lim |-> A!AfterLim(s.lim, s.pend[t]), workers |-> A!AfterWorkers(s.workers, s.pend[t], CreatedNow(t)),
             pend |-> [s.pend EXCEPT ![t].lin = TRUE]] :
              t \in {u \in DOMAIN s.pend : s.pend[u].op # "idle" /\ ~s.pend[u].lin /\ A!CanLin(s.lim, s.workers, s.pend[u], CreatedNow(u))}}
RECURSIVE Closure(_)
Closure(S) == LET N == S \cup UNION {Lin1(s) : s \in S} IN IF N = S THEN S ELSE Closure(N)

Keep == UNCHANGED <<alone, mylim, mine>>
Step ==
  CASE OnlyRaces -> E.e \notin {"Race", "UseAfterFree", "BadFree", "Segv"} /\ UNCHANGED <<cfgs, alone, mylim, mine>>
    [] E.e = "Alone" -> alone' = alone @@ (E.k :> E.h) /\ UNCHANGED <<cfgs, mylim, mine>>
    [] E.e = "Call"  -> cfgs' = {[s EXCEPT !.pend = [s.pend EXCEPT ![E.t] = A!Pending(AbsOp(E.op), E.a)]] : s \in cfgs} /\ Keep
    [] E.e = "Ret"   ->
         /\ cfgs' = {[s EXCEPT !.pend = [s.pend EXCEPT ![E.t] = A!Idle]] : s \in {x \in Closure(cfgs) : x.pend[E.t].lin}}
         /\ cfgs' # {}
         /\ (E.k # "" => (E.k \in DOMAIN alone /\ alone[E.k] = E.h))
         /\ UNCHANGED alone
         /\ LET c == CreatedNow(E.t)
            IN CASE E.op = "g" -> /\ (c = 0 \/ mine[E.t] + c <= mylim[E.t] - 1)
                                  /\ mine' = [mine EXCEPT ![E.t] = @ + c] /\ UNCHANGED mylim
                 [] E.op = "t" -> mylim' = [mylim EXCEPT ![E.t] = E.a] /\ UNCHANGED mine
                 [] E.op = "x" -> mylim' = [mylim EXCEPT ![E.t] = 1] /\ mine' = [mine EXCEPT ![E.t] = 0]
                 [] OTHER -> UNCHANGED <<mylim, mine>>
    [] E.e \in {"ThreadCreate", "ThreadExit", "ThreadJoin"} -> UNCHANGED cfgs /\ Keep
    [] E.e = "End"   -> E.alive = 0 /\ E.blocks = 0 /\ UNCHANGED cfgs /\ Keep
    [] OTHER         -> FALSE        \* Race, Deadlock, Livelock, UseAfterFree, Segv, Assert, ...
Next ==
  \/ l <= Len(Ev) /\ Step /\ l' = l + 1 /\ tr' = tr
  \/ l > Len(Ev) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
