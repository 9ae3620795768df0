---------------------------- MODULE WorkersPool ----------------------------
(***************************************************************************)
(* The worker pool's algorithm (internal/multi_thread_gemm.h), one action  *)
(* per synchronisation operation: the state handshake under the per-worker *)
(* mutex and condition variable, the busy-wait that may give up at any     *)
(* point, the passive wait (with spurious wake-ups), the blocking counter, *)
(* creation on demand and destruction.                                     *)
(*                                                                         *)
(* It refines PoolAbs (THEOREM at the end, checked with TLC), also under    *)
(* the C++ memory model: know[t] is what happens-before thread t's point;   *)
(* locks and release/acquire atomics carry it, relaxed atomics do not.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS
  MaxTasks,     \* tasks per batch
  MaxBatches,
  MaxSpurious,  \* spurious wake-ups allowed per behaviour
  DecRelease,   \* the counter's decrement releases      (code: acq_rel)
  WaitAcquire,  \* the counter's wait acquires            (code: acquire)
  HoldLock,     \* the task runs under the state mutex    (code: yes)
  Recheck,      \* the passive wait re-checks under the mutex before sleeping (code: yes)
  WaitReady,    \* pool growth waits until new workers are ready (code: yes)
  SettleBeforeSignal \* state is set to Ready before the counter is decremented (code: yes)

Workers == 1..(MaxTasks - 1)
Threads == 0..(MaxTasks - 1)

VARIABLES
  (* PoolAbs's variables, kept as history *)
  phase, batch, ntasks, st, running, threads,
  (* the algorithm *)
  mpc, mi,          \* master's control point and loop index
  nw,               \* workers created so far
  wpc,              \* worker control points
  wstate,           \* "Startup" | "Ready" | "HasWork" | "Exit"
  task,             \* task index given to the worker, or -1
  owner,            \* mutex owner: -1 free, 0 master, w worker
  waiting,          \* workers waiting on their condition variable
  cnt,              \* the blocking counter
  spur,             \* spurious wake-ups so far
  curk,             \* task a worker is running
  know, kmutex, kcnt

abs == <<phase, batch, ntasks, st, running, threads>>
alg == <<mpc, mi, nw, wpc, wstate, task, owner, waiting, cnt, spur, curk>>
mem == <<know, kmutex, kcnt>>
vars == <<abs, alg, mem>>

Abs == INSTANCE PoolAbs

Init ==
  /\ Abs!AbsInit
  /\ mpc = "idle" /\ mi = 0 /\ nw = 0
  /\ wpc = [w \in Workers |-> "none"]
  /\ wstate = [w \in Workers |-> "Startup"]
  /\ task = [w \in Workers |-> -1]
  /\ owner = [w \in Workers |-> -1]
  /\ waiting = {} /\ cnt = 0 /\ spur = 0
  /\ curk = [w \in Workers |-> -1]
  /\ know = [t \in Threads |-> {}]
  /\ kmutex = [w \in Workers |-> {}] /\ kcnt = {}

----------------------------------------------------------------------------
(* memory: acquire joins, release publishes *)
LockKnow(t, w) == know' = [know EXCEPT ![t] = @ \cup kmutex[w]]
UnlockKnow(t, w) == kmutex' = [kmutex EXCEPT ![w] = know[t]]

(* ----------------------------- master --------------------------------- *)
MCall(n) ==
  /\ mpc = "idle" /\ batch < MaxBatches
  /\ Abs!ExecCall(batch + 1, n)
  /\ know' = [know EXCEPT ![0] = @ \cup {<<"call", batch + 1>>}]
  /\ IF nw < n - 1
     THEN /\ cnt' = (n - 1) - nw /\ mpc' = "create"
          /\ kcnt' = IF WaitAcquire THEN know'[0] ELSE {}   \* Reset: release store
     ELSE mpc' = "reset" /\ UNCHANGED <<cnt, kcnt>>
  /\ mi' = 1
  /\ UNCHANGED <<nw, wpc, wstate, task, owner, waiting, spur, curk, kmutex>>

MCreate ==
  /\ mpc = "create" /\ nw < ntasks - 1
  /\ nw' = nw + 1
  /\ wpc' = [wpc EXCEPT ![nw + 1] = "lock"]
  /\ know' = [know EXCEPT ![nw + 1] = know[0]]
  /\ Abs!ThreadCreate(0, nw + 1)
  /\ UNCHANGED <<mpc, mi, wstate, task, owner, waiting, cnt, spur, curk, kmutex, kcnt>>
MCreated ==
  /\ mpc = "create" /\ nw = ntasks - 1
  /\ mpc' = IF WaitReady THEN "cwait" ELSE "reset"
  /\ UNCHANGED <<abs, mi, nw, wpc, wstate, task, owner, waiting, cnt, spur, curk, mem>>

CounterWait(from, to) ==
  /\ mpc = from /\ cnt = 0
  /\ mpc' = to
  /\ know' = [know EXCEPT ![0] = IF WaitAcquire THEN @ \cup kcnt ELSE @]
  /\ UNCHANGED <<abs, mi, nw, wpc, wstate, task, owner, waiting, cnt, spur, curk, kmutex, kcnt>>

MReset ==
  /\ mpc = "reset"
  /\ Assert(cnt = 0, "Reset while the counter is not zero")
  /\ cnt' = ntasks - 1 /\ kcnt' = know[0]
  /\ mpc' = "start" /\ mi' = 1
  /\ UNCHANGED <<abs, nw, wpc, wstate, task, owner, waiting, spur, curk, know, kmutex>>

MStartLock ==
  /\ mpc = "start" /\ mi <= ntasks - 1 /\ owner[mi] = -1
  /\ owner' = [owner EXCEPT ![mi] = 0] /\ LockKnow(0, mi)
  /\ mpc' = "give"
  /\ UNCHANGED <<abs, mi, nw, wpc, wstate, task, waiting, cnt, spur, curk, kmutex, kcnt>>
MGive ==
  /\ mpc = "give"
  /\ Assert(wstate[mi] = "Ready", "StartWork on a worker that is not ready")
  /\ Assert(task[mi] = -1, "StartWork on a worker that has a task")
  /\ task' = [task EXCEPT ![mi] = mi - 1]
  /\ wstate' = [wstate EXCEPT ![mi] = "HasWork"]
  /\ mpc' = "givebc"
  /\ UNCHANGED <<abs, mi, nw, wpc, owner, waiting, cnt, spur, curk, mem>>
MGiveBroadcast ==
  /\ mpc = "givebc"
  /\ waiting' = waiting \ {mi}
  /\ mpc' = "giveul"
  /\ UNCHANGED <<abs, mi, nw, wpc, wstate, task, owner, cnt, spur, curk, mem>>
MGiveUnlock ==
  /\ mpc = "giveul"
  /\ owner' = [owner EXCEPT ![mi] = -1] /\ UnlockKnow(0, mi)
  /\ mpc' = "start" /\ mi' = mi + 1
  /\ UNCHANGED <<abs, nw, wpc, wstate, task, waiting, cnt, spur, curk, know, kcnt>>

MRunBegin ==
  /\ mpc = "start" /\ mi > ntasks - 1
  /\ Abs!TaskBegin(batch, ntasks - 1, 0, 0)
  /\ mpc' = "run"
  /\ UNCHANGED <<mi, nw, wpc, wstate, task, owner, waiting, cnt, spur, curk, mem>>
MRunEnd ==
  /\ mpc = "run"
  /\ Abs!TaskEnd(batch, ntasks - 1, 0)
  /\ know' = [know EXCEPT ![0] = @ \cup {<<"end", batch, ntasks - 1>>}]
  /\ mpc' = "wait"
  /\ UNCHANGED <<mi, nw, wpc, wstate, task, owner, waiting, cnt, spur, curk, kmutex, kcnt>>
MRet ==
  /\ mpc = "ret"
  /\ Abs!ExecRet(batch)
  /\ mpc' = "idle"
  /\ UNCHANGED <<mi, nw, wpc, wstate, task, owner, waiting, cnt, spur, curk, mem>>

MDestroy ==
  /\ mpc = "idle"
  /\ Abs!DestroyCall
  /\ mpc' = "exit" /\ mi' = 1
  /\ UNCHANGED <<nw, wpc, wstate, task, owner, waiting, cnt, spur, curk, mem>>
MExitLock ==
  /\ mpc = "exit" /\ mi <= nw /\ owner[mi] = -1
  /\ owner' = [owner EXCEPT ![mi] = 0] /\ LockKnow(0, mi)
  /\ mpc' = "exitset"
  /\ UNCHANGED <<abs, mi, nw, wpc, wstate, task, waiting, cnt, spur, curk, kmutex, kcnt>>
MExitSet ==
  /\ mpc = "exitset"
  /\ Assert(wstate[mi] \in {"Ready", "HasWork"}, "exit in a wrong state")
  /\ wstate' = [wstate EXCEPT ![mi] = "Exit"]
  /\ waiting' = waiting \ {mi}
  /\ mpc' = "exitul"
  /\ UNCHANGED <<abs, mi, nw, wpc, task, owner, cnt, spur, curk, mem>>
MExitUnlock ==
  /\ mpc = "exitul"
  /\ owner' = [owner EXCEPT ![mi] = -1] /\ UnlockKnow(0, mi)
  /\ mpc' = "join"
  /\ UNCHANGED <<abs, mi, nw, wpc, wstate, task, waiting, cnt, spur, curk, know, kcnt>>
MJoin ==
  /\ mpc = "join" /\ wpc[mi] = "gone"
  /\ know' = [know EXCEPT ![0] = @ \cup know[mi]]
  /\ mpc' = "exit" /\ mi' = mi + 1
  /\ UNCHANGED <<abs, nw, wpc, wstate, task, owner, waiting, cnt, spur, curk, kmutex, kcnt>>
MDestroyed ==
  /\ mpc = "exit" /\ mi > nw
  /\ Abs!DestroyRet
  /\ mpc' = "end"
  /\ UNCHANGED <<mi, nw, wpc, wstate, task, owner, waiting, cnt, spur, curk, mem>>

MNext ==
  \/ \E n \in 1..MaxTasks : MCall(n)
  \/ MCreate \/ MCreated \/ CounterWait("cwait", "reset")
  \/ MReset \/ MStartLock \/ MGive \/ MGiveBroadcast \/ MGiveUnlock
  \/ MRunBegin \/ MRunEnd \/ CounterWait("wait", "ret") \/ MRet
  \/ MDestroy \/ MExitLock \/ MExitSet \/ MExitUnlock \/ MJoin \/ MDestroyed

(* ----------------------------- workers -------------------------------- *)
WGoto(w, to) == wpc' = [wpc EXCEPT ![w] = to]

(* ChangeState(Ready) *)
WLock(w) ==
  /\ wpc[w] = "lock" /\ owner[w] = -1
  /\ owner' = [owner EXCEPT ![w] = w] /\ LockKnow(w, w)
  /\ WGoto(w, "cs")
  /\ UNCHANGED <<abs, mpc, mi, nw, wstate, task, waiting, cnt, spur, curk, kmutex, kcnt>>
WCsIdle(w) ==
  /\ wpc[w] = "cs" /\ task[w] = -1
  /\ WGoto(w, "set")
  /\ UNCHANGED <<abs, mpc, mi, nw, wstate, task, owner, waiting, cnt, spur, curk, mem>>
WTaskBegin(w) ==
  /\ wpc[w] = "cs" /\ task[w] # -1
  /\ Abs!TaskBegin(batch, task[w], w, w)
  /\ curk' = [curk EXCEPT ![w] = task[w]]
  /\ WGoto(w, "running")
  /\ owner' = IF HoldLock THEN owner ELSE [owner EXCEPT ![w] = -1]
  /\ UNCHANGED <<mpc, mi, nw, wstate, task, waiting, cnt, spur, mem>>
WTaskEnd(w) ==
  /\ wpc[w] = "running"
  /\ HoldLock \/ owner[w] = -1
  /\ Abs!TaskEnd(batch, curk[w], w)
  /\ know' = [know EXCEPT ![w] = @ \cup {<<"end", batch, curk[w]>>}]
  /\ task' = [task EXCEPT ![w] = -1]
  /\ owner' = [owner EXCEPT ![w] = w]
  /\ WGoto(w, IF SettleBeforeSignal THEN "set" ELSE "dec0")
  /\ UNCHANGED <<mpc, mi, nw, wstate, waiting, cnt, spur, curk, kmutex, kcnt>>
WSet(w) ==
  /\ wpc[w] = "set"
  /\ wstate' = [wstate EXCEPT ![w] = "Ready"]
  /\ waiting' = waiting \ {w}
  /\ WGoto(w, "unlock")
  /\ UNCHANGED <<abs, mpc, mi, nw, task, owner, cnt, spur, curk, mem>>
WUnlock(w) ==
  /\ wpc[w] = "unlock"
  /\ owner' = [owner EXCEPT ![w] = -1] /\ UnlockKnow(w, w)
  /\ WGoto(w, IF ~SettleBeforeSignal /\ curk[w] # -1 THEN "spin" ELSE "dec")
  /\ UNCHANGED <<abs, mpc, mi, nw, wstate, task, waiting, cnt, spur, curk, know, kcnt>>
WDec(w) ==
  /\ wpc[w] \in {"dec", "dec0"}
  /\ Assert(cnt > 0, "counter decremented below zero")
  /\ cnt' = cnt - 1
  /\ kcnt' = IF DecRelease THEN kcnt \cup know[w] ELSE kcnt
  /\ know' = [know EXCEPT ![w] = @ \cup kcnt]
  /\ WGoto(w, IF wpc[w] = "dec" THEN "spin" ELSE "set")
  /\ UNCHANGED <<abs, mpc, mi, nw, wstate, task, owner, waiting, spur, curk, kmutex>>

(* WaitForVariableChange(state, Ready): busy-wait, then passive wait *)
Act(w) == IF wstate[w] = "HasWork" THEN "lock" ELSE "exit"
WSpinSees(w) ==
  /\ wpc[w] = "spin" /\ wstate[w] # "Ready"
  /\ WGoto(w, Act(w))
  /\ UNCHANGED <<abs, mpc, mi, nw, wstate, task, owner, waiting, cnt, spur, curk, mem>>
WSpinGivesUp(w) ==
  /\ wpc[w] = "spin" /\ wstate[w] = "Ready"
  /\ WGoto(w, "plock")
  /\ UNCHANGED <<abs, mpc, mi, nw, wstate, task, owner, waiting, cnt, spur, curk, mem>>
WPassiveLock(w) ==
  /\ wpc[w] = "plock" /\ owner[w] = -1
  /\ owner' = [owner EXCEPT ![w] = w] /\ LockKnow(w, w)
  /\ WGoto(w, IF Recheck THEN "pcheck" ELSE "pwait")
  /\ UNCHANGED <<abs, mpc, mi, nw, wstate, task, waiting, cnt, spur, curk, kmutex, kcnt>>
WPassiveCheck(w) ==
  /\ wpc[w] = "pcheck"
  /\ WGoto(w, IF wstate[w] = "Ready" THEN "pwait" ELSE "punlock")
  /\ UNCHANGED <<abs, mpc, mi, nw, wstate, task, owner, waiting, cnt, spur, curk, mem>>
WPassiveWait(w) ==          \* atomically releases the mutex and sleeps
  /\ wpc[w] = "pwait"
  /\ owner' = [owner EXCEPT ![w] = -1] /\ UnlockKnow(w, w)
  /\ waiting' = waiting \cup {w}
  /\ WGoto(w, "asleep")
  /\ UNCHANGED <<abs, mpc, mi, nw, wstate, task, cnt, spur, curk, know, kcnt>>
WWake(w) ==
  /\ wpc[w] = "asleep" /\ w \notin waiting /\ owner[w] = -1
  /\ owner' = [owner EXCEPT ![w] = w] /\ LockKnow(w, w)
  /\ WGoto(w, "pcheck")
  /\ UNCHANGED <<abs, mpc, mi, nw, wstate, task, waiting, cnt, spur, curk, kmutex, kcnt>>
WSpurious(w) ==
  /\ wpc[w] = "asleep" /\ w \in waiting /\ spur < MaxSpurious
  /\ waiting' = waiting \ {w} /\ spur' = spur + 1
  /\ UNCHANGED <<abs, mpc, mi, nw, wpc, wstate, task, owner, cnt, curk, mem>>
WPassiveUnlock(w) ==
  /\ wpc[w] = "punlock"
  /\ owner' = [owner EXCEPT ![w] = -1] /\ UnlockKnow(w, w)
  /\ WGoto(w, Act(w))
  /\ UNCHANGED <<abs, mpc, mi, nw, wstate, task, waiting, cnt, spur, curk, know, kcnt>>
WExit(w) ==
  /\ wpc[w] = "exit"
  /\ Abs!ThreadExit(w)
  /\ WGoto(w, "gone")
  /\ UNCHANGED <<mpc, mi, nw, wstate, task, owner, waiting, cnt, spur, curk, mem>>

WNext(w) ==
  \/ WLock(w) \/ WCsIdle(w) \/ WTaskBegin(w) \/ WTaskEnd(w) \/ WSet(w) \/ WUnlock(w) \/ WDec(w)
  \/ WSpinSees(w) \/ WSpinGivesUp(w) \/ WPassiveLock(w) \/ WPassiveCheck(w) \/ WPassiveWait(w)
  \/ WWake(w) \/ WPassiveUnlock(w) \/ WExit(w)

Done == mpc = "end" /\ UNCHANGED vars
Next == MNext \/ (\E w \in Workers : WNext(w) \/ WSpurious(w)) \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(MNext) /\ \A w \in Workers : WF_vars(WNext(w))

----------------------------------------------------------------------------
TypeOK ==
  /\ cnt \in 0..MaxTasks /\ nw \in 0..(MaxTasks-1)
  /\ \A w \in Workers : owner[w] \in {-1, 0, w}

(* C06: at every task start the submission is visible, at return all ends are *)
Visible ==
  /\ \A r \in running : <<"call", batch>> \in know[r.t]
  /\ mpc = "ret" => \A k \in 0..(ntasks-1) : <<"end", batch, k>> \in know[0]
(* the worker's task slot is only touched under its mutex *)
TaskSlotGuarded ==
  \A w \in Workers : (wpc[w] \in {"cs", "set"} => owner[w] = w)
(* C05: refinement and termination *)
Refines == Abs!AbsInit /\ [][Abs!AbsNext(Threads, Threads, MaxTasks)]_abs
ReturnsAlways == (phase = "exec") ~> (phase = "idle")
DestroyTerminates == (phase = "destroying") ~> (phase = "destroyed")
=============================================================================
