------------------------------ MODULE PoolAbs ------------------------------
(***************************************************************************)
(* What a user of the worker pool may rely on (C05, and the memory part of *)
(* C06), independently of how the pool is built.                           *)
(*                                                                         *)
(* One caller thread issues batches of tasks, one batch at a time, and      *)
(* finally destroys the pool.  `know[t]` is the set of observable facts      *)
(* (batch submissions <<"call",b>>, task completions <<"end",b,k>>) that    *)
(* happen-before the current point of thread t.                             *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets

VARIABLES
  phase,    \* "idle" | "exec" | "destroying" | "destroyed"
  batch,    \* number of the current (or last) batch
  ntasks,   \* its number of tasks
  st,       \* task index -> "todo" | "run" | "done"
  running,  \* set of [k |-> task, t |-> thread, a |-> allocator] now running
  threads   \* pool threads that exist (created, not yet exited)

absVars == <<phase, batch, ntasks, st, running, threads>>

AbsInit ==
  /\ phase = "idle" /\ batch = 0 /\ ntasks = 0
  /\ st = <<>> /\ running = {} /\ threads = {}

ThreadCreate(t, c) ==
  /\ phase \in {"idle", "exec"}
  /\ c \notin threads
  /\ threads' = threads \cup {c}
  /\ UNCHANGED <<phase, batch, ntasks, st, running>>

ThreadExit(t) ==
  /\ t \in threads
  /\ \A r \in running : r.t # t
  /\ threads' = threads \ {t}
  /\ UNCHANGED <<phase, batch, ntasks, st, running>>

ExecCall(b, n) ==
  /\ phase = "idle" /\ n >= 1
  /\ phase' = "exec" /\ batch' = b /\ ntasks' = n
  /\ b > batch
  /\ st' = [k \in 0..(n-1) |-> "todo"]
  /\ UNCHANGED <<running, threads>>

(* A task starts: it belongs to the current batch, has not been started,    *)
(* the thread is not in the middle of another task, and the scratch         *)
(* allocator is not in use by a task that is running now.                   *)
TaskBegin(b, k, t, a) ==
  /\ phase = "exec" /\ b = batch /\ k \in DOMAIN st
  /\ st[k] = "todo"
  /\ \A r \in running : r.t # t /\ r.a # a
  /\ st' = [st EXCEPT ![k] = "run"]
  /\ running' = running \cup {[k |-> k, t |-> t, a |-> a]}
  /\ UNCHANGED <<phase, batch, ntasks, threads>>

TaskEnd(b, k, t) ==
  /\ phase = "exec" /\ b = batch /\ k \in DOMAIN st
  /\ st[k] = "run"
  /\ \E r \in running : r.k = k /\ r.t = t
  /\ st' = [st EXCEPT ![k] = "done"]
  /\ running' = {r \in running : r.k # k}
  /\ UNCHANGED <<phase, batch, ntasks, threads>>

ExecRet(b) ==
  /\ phase = "exec" /\ b = batch
  /\ \A k \in DOMAIN st : st[k] = "done"
  /\ phase' = "idle"
  /\ UNCHANGED <<batch, ntasks, st, running, threads>>

DestroyCall ==
  /\ phase = "idle"
  /\ phase' = "destroying"
  /\ UNCHANGED <<batch, ntasks, st, running, threads>>

DestroyRet ==
  /\ phase = "destroying" /\ threads = {}
  /\ phase' = "destroyed"
  /\ UNCHANGED <<batch, ntasks, st, running, threads>>

AbsNext(Threads, Allocs, MaxTasks) ==
  \/ \E t, c \in Threads : ThreadCreate(t, c)
  \/ \E t \in Threads : ThreadExit(t)
  \/ \E n \in 1..MaxTasks : ExecCall(batch + 1, n)
  \/ \E k \in 0..(MaxTasks-1), t \in Threads, a \in Allocs : TaskBegin(batch, k, t, a)
  \/ \E k \in 0..(MaxTasks-1), t \in Threads : TaskEnd(batch, k, t)
  \/ ExecRet(batch)
  \/ DestroyCall
  \/ DestroyRet
=============================================================================
