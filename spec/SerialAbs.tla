----------------------------- MODULE SerialAbs -----------------------------
(***************************************************************************)
(* What concurrent users of the library may rely on (C14).                   *)
(*                                                                           *)
(* The legacy eight-bit API is one shared object: `lim` is its thread limit   *)
(* and `workers` the number of pool threads it keeps.  Every operation takes   *)
(* effect atomically at one point between its call and its return.  A GEMM     *)
(* may add `cr` workers, but only up to the limit in force at that point; a     *)
(* release drops the workers and the limit.                                    *)
(* A GEMM on a private context (op "own") touches only its caller's state.      *)
(***************************************************************************)
EXTENDS Integers
CONSTANTS Callers, DefaultLim
VARIABLES
  lim, workers,
  pend   \* caller -> [op, a, lin]: operation in progress; op = "idle" when none
absVars == <<lim, workers, pend>>
Idle == [op |-> "idle", a |-> 0, lin |-> FALSE]
(* operations on a private context have no effect here, so no point to wait for *)
Pending(op, a) == [op |-> op, a |-> a, lin |-> (op \in {"own", "lim_own", "new_own"})]
(* the effect of a pending operation q that creates cr threads, on limit m and w workers *)
CanLin(m, w, q, cr) == q.op = "gemm" => (cr = 0 \/ w + cr <= m - 1)
AfterLim(m, q) == IF q.op = "set" THEN q.a ELSE IF q.op = "free" THEN DefaultLim ELSE m
AfterWorkers(w, q, cr) == IF q.op = "gemm" THEN w + cr ELSE IF q.op = "free" THEN 0 ELSE w

AbsInit == lim = DefaultLim /\ workers = 0 /\ pend = [t \in Callers |-> Idle]

Call(t, op, a) ==
  /\ pend[t] = Idle
  /\ pend' = [pend EXCEPT ![t] = Pending(op, a)]
  /\ UNCHANGED <<lim, workers>>
Lin(t, cr) ==
  /\ pend[t].op # "idle" /\ ~pend[t].lin
  /\ CanLin(lim, workers, pend[t], cr)
  /\ lim' = AfterLim(lim, pend[t])
  /\ workers' = AfterWorkers(workers, pend[t], cr)
  /\ pend' = [pend EXCEPT ![t].lin = TRUE]
Ret(t) ==
  /\ pend[t].lin
  /\ pend' = [pend EXCEPT ![t] = Idle]
  /\ UNCHANGED <<lim, workers>>

AbsNext(Lims, MaxCr) == \E t \in Callers :
  \/ \E a \in Lims : Call(t, "set", a)
  \/ Call(t, "gemm", 0) \/ Call(t, "free", 0) \/ Call(t, "own", 0)
  \/ \E cr \in 0..MaxCr : Lin(t, cr)
  \/ Ret(t)
=============================================================================
