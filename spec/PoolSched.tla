----------------------------- MODULE PoolSched -----------------------------
(* Behaviours of WorkersPool as test inputs: the history of batch sizes and *)
(* the schedule (which thread takes each step), printed as JSON at the end  *)
(* of every simulated behaviour and replayed on the real pool.              *)
EXTENDS WorkersPool, Json

VARIABLES sched, hist

SInit == Init /\ sched = <<>> /\ hist = <<>>
SNext ==
  \/ /\ MNext /\ sched' = Append(sched, 0)
     /\ hist' = IF batch' # batch THEN Append(hist, ntasks') ELSE hist
  \/ \E w \in Workers : (WNext(w) \/ WSpurious(w)) /\ sched' = Append(sched, w) /\ hist' = hist
SSpec == SInit /\ [][SNext]_<<vars, sched, hist>>
Emit == mpc = "end" => PrintT("SCHED " \o ToJson([hist |-> hist, sched |-> sched]))
=============================================================================
