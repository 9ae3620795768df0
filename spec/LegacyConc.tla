----------------------------- MODULE LegacyConc ----------------------------
(***************************************************************************)
(* How eight_bit_int_gemm.cc serialises its callers: one global mutex held      *)
(* for the whole of every entry point, a lazily created global context and      *)
(* scratch buffer behind pointers, both deleted by FreePersistentResources.     *)
(* Private-context GEMMs run beside it without any lock.                        *)
(* Checked: the context is never used after it was deleted, never used by two   *)
(* threads at a time, no deadlock, every call returns, and every behaviour is    *)
(* one of SerialAbs (refinement by an explicit linearisation at the unlock).     *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences, TLC
CONSTANTS Threads, MaxOps, Lims, Guarded   \* Guarded: entry points that take the lock
VARIABLES pc, op, arg, done, mutex, ctx, nextctx, live, climit, cworkers, users, cr, lost
vars == <<pc, op, arg, done, mutex, ctx, nextctx, live, climit, cworkers, users, cr, lost>>

NoCtx == 0
Init ==
  /\ pc = [t \in Threads |-> "idle"] /\ op = [t \in Threads |-> "idle"] /\ arg = [t \in Threads |-> 0]
  /\ done = [t \in Threads |-> 0] /\ cr = [t \in Threads |-> 0]
  /\ mutex = 0 /\ ctx = NoCtx /\ nextctx = 1 /\ live = {} /\ climit = 1 /\ cworkers = 0
  /\ users = {} /\ lost = FALSE
U == UNCHANGED <<mutex, ctx, nextctx, live, climit, cworkers, users, lost>>

Start(t) ==
  /\ pc[t] = "idle" /\ done[t] < MaxOps
  /\ \E o \in {"gemm", "set", "free", "own"} : \E a \in (IF o = "set" THEN Lims ELSE {0}) :
       /\ op' = [op EXCEPT ![t] = o] /\ arg' = [arg EXCEPT ![t] = a]
       /\ pc' = [pc EXCEPT ![t] = IF o = "own" THEN "own" ELSE IF o \in Guarded THEN "lock" ELSE "get"]
  /\ cr' = [cr EXCEPT ![t] = 0] /\ done' = [done EXCEPT ![t] = @ + 1] /\ U
Own(t) ==
  /\ pc[t] = "own" /\ pc' = [pc EXCEPT ![t] = "ret"] /\ UNCHANGED <<op, arg, done, cr>> /\ U
Lock(t) ==
  /\ pc[t] = "lock" /\ mutex = 0 /\ mutex' = t /\ pc' = [pc EXCEPT ![t] = "get"]
  /\ UNCHANGED <<op, arg, done, cr, ctx, nextctx, live, climit, cworkers, users, lost>>
Get(t) ==                             \* GetOrCreateGlobalContext (Free does not create)
  /\ pc[t] = "get"
  /\ IF ctx = NoCtx /\ op[t] # "free"
     THEN /\ ctx' = nextctx /\ nextctx' = nextctx + 1 /\ live' = live \cup {nextctx}
          /\ climit' = 1 /\ cworkers' = 0
     ELSE UNCHANGED <<ctx, nextctx, live, climit, cworkers>>
  /\ pc' = [pc EXCEPT ![t] = "use"]
  /\ users' = IF op[t] = "free" THEN users ELSE users \cup {<<t, ctx'>>}
  /\ UNCHANGED <<op, arg, done, cr, mutex, lost>>
Use(t) ==
  /\ pc[t] = "use"
  /\ lost' = (lost \/ \E u \in users : u[1] = t /\ u[2] \notin live)
  /\ CASE op[t] = "set" -> climit' = arg[t] /\ UNCHANGED <<cworkers, cr, live, ctx>>
       [] op[t] = "gemm" ->
            \E want \in 0..(climit - 1) :
              /\ cr' = [cr EXCEPT ![t] = IF want > cworkers THEN want - cworkers ELSE 0]
              /\ cworkers' = IF want > cworkers THEN want ELSE cworkers
              /\ UNCHANGED <<climit, live, ctx>>
       [] op[t] = "free" -> live' = live \ {ctx} /\ ctx' = NoCtx /\ climit' = 1 /\ cworkers' = 0 /\ UNCHANGED cr
  /\ pc' = [pc EXCEPT ![t] = "unlock"]
  /\ UNCHANGED <<op, arg, done, mutex, nextctx, users>>
Unlock(t) ==
  /\ pc[t] = "unlock"
  /\ mutex' = IF op[t] \in Guarded THEN 0 ELSE mutex
  /\ users' = {u \in users : u[1] # t}
  /\ pc' = [pc EXCEPT ![t] = "ret"]
  /\ UNCHANGED <<op, arg, done, cr, ctx, nextctx, live, climit, cworkers, lost>>
Return(t) ==
  /\ pc[t] = "ret" /\ pc' = [pc EXCEPT ![t] = "idle"] /\ op' = [op EXCEPT ![t] = "idle"]
  /\ arg' = [arg EXCEPT ![t] = 0]
  /\ UNCHANGED <<done, cr>> /\ U
Next == \/ \E t \in Threads : Start(t) \/ Own(t) \/ Lock(t) \/ Get(t) \/ Use(t) \/ Unlock(t) \/ Return(t)
        \/ (\A t \in Threads : pc[t] = "idle" /\ done[t] = MaxOps) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Own(t) \/ Get(t) \/ Use(t) \/ Unlock(t) \/ Return(t)) /\ SF_vars(Lock(t))

Exclusive == Cardinality({u[1] : u \in users}) <= 1
NoUseAfterFree == ~lost
OneContext == Cardinality(live) <= 1 /\ (ctx # NoCtx => ctx \in live)
AllReturn == \A t \in Threads : (pc[t] # "idle") ~> (pc[t] = "idle")

LinDone(t) == op[t] = "own" \/ pc[t] \in {"unlock", "ret"}
Abs == INSTANCE SerialAbs WITH Callers <- Threads, DefaultLim <- 1,
         lim <- climit, workers <- cworkers,
         pend <- [t \in Threads |-> IF pc[t] = "idle" THEN [op |-> "idle", a |-> 0, lin |-> FALSE]
                                    ELSE [op |-> op[t], a |-> arg[t], lin |-> LinDone(t)]]
Refines == Abs!AbsInit /\ [][Abs!AbsNext(Lims, 3)]_(Abs!absVars)
=============================================================================
