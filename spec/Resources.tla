----------------------------- MODULE Resources -----------------------------
(***************************************************************************)
(* C19: what a GEMM context owns.  A context is created, makes calls that     *)
(* need up to N threads and S units of scratch each, and is destroyed: every  *)
(* worker is told to exit, acknowledges in its own time, is joined and freed  *)
(* with its scratch, then the context's own scratch goes.  Memory is counted  *)
(* by a heap that only sees allocations and frees.                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS N, S, MaxCalls
VARIABLES pc, worker, scratch, heap, threads, k, calls, want, prev
vars == <<pc, worker, scratch, heap, threads, k, calls, want, prev>>
(* worker[i]: "none", "busy", "ready", "told", "left" ; scratch[0] is the caller's own *)
W == 1..(N - 1)
Init ==
  /\ pc = "none" /\ worker = [i \in W |-> "none"] /\ scratch = [i \in 0..(N - 1) |-> 0]
  /\ heap = 0 /\ threads = 0 /\ k = 0 /\ calls = 0 /\ want = <<1, 0>> /\ prev = <<>>
Create == pc = "none" /\ calls < MaxCalls /\ pc' = "idle" /\ heap' = heap + 1 /\ prev' = <<>> /\ UNCHANGED <<worker, scratch, threads, k, calls, want>>
Call ==
  /\ pc = "idle" /\ calls < MaxCalls
  /\ \E n \in 1..N, s \in 1..S : want' = <<n, s>>
  /\ pc' = "grow" /\ k' = 1 /\ calls' = calls + 1 /\ UNCHANGED <<worker, scratch, heap, threads, prev>>
(* workers that do not exist yet are created *)
Grow ==
  /\ pc = "grow"
  /\ IF k < want[1]
     THEN /\ k' = k + 1 /\ pc' = pc
          /\ IF worker[k] = "none" THEN worker' = [worker EXCEPT ![k] = "ready"] /\ heap' = heap + 1 /\ threads' = threads + 1
             ELSE UNCHANGED <<worker, heap, threads>>
     ELSE /\ pc' = "run" /\ k' = 0 /\ worker' = [i \in W |-> IF i < want[1] THEN "busy" ELSE worker[i]] /\ UNCHANGED <<heap, threads>>
  /\ UNCHANGED <<scratch, calls, want, prev>>
(* a task makes its allocator at least as large as it needs: an old block goes, a new one comes *)
Commit(i) == /\ scratch' = [scratch EXCEPT ![i] = IF @ < want[2] THEN want[2] ELSE @]
             /\ heap' = IF scratch[i] < want[2] THEN (heap - scratch[i]) + want[2] ELSE heap
RunWorker(i) == worker[i] = "busy" /\ Commit(i) /\ worker' = [worker EXCEPT ![i] = "ready"] /\ UNCHANGED <<pc, threads, k, calls, want, prev>>
RunMain == pc = "run" /\ Commit(0) /\ pc' = "wait" /\ UNCHANGED <<worker, threads, k, calls, want, prev>>
Finish == pc = "wait" /\ (\A i \in W : worker[i] # "busy") /\ pc' = "idle" /\ prev' = <<want, heap, threads>> /\ UNCHANGED <<worker, scratch, heap, threads, k, calls, want>>
Destroy == pc = "idle" /\ pc' = "tell" /\ k' = 1 /\ UNCHANGED <<worker, scratch, heap, threads, calls, want, prev>>
Tell ==
  /\ pc = "tell"
  /\ IF k \in W /\ worker[k] # "none" THEN pc' = "join" /\ worker' = [worker EXCEPT ![k] = "told"] /\ UNCHANGED <<k, heap, scratch>>
     ELSE pc' = "none" /\ k' = 0 /\ heap' = (heap - 1) - scratch[0] /\ scratch' = [scratch EXCEPT ![0] = 0] /\ UNCHANGED worker
  /\ UNCHANGED <<threads, calls, want, prev>>
Leave(i) == worker[i] = "told" /\ worker' = [worker EXCEPT ![i] = "left"] /\ threads' = threads - 1 /\ UNCHANGED <<pc, scratch, heap, k, calls, want, prev>>
Join ==
  /\ pc = "join" /\ worker[k] = "left"
  /\ worker' = [worker EXCEPT ![k] = "none"] /\ heap' = (heap - 1) - scratch[k] /\ scratch' = [scratch EXCEPT ![k] = 0]
  /\ pc' = "tell" /\ k' = k + 1 /\ UNCHANGED <<threads, calls, want, prev>>
Next == Create \/ Call \/ Grow \/ RunMain \/ Finish \/ Destroy \/ Tell \/ Join \/ (\E i \in W : RunWorker(i) \/ Leave(i))
        \/ (pc = "none" /\ calls >= MaxCalls /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Grow) /\ WF_vars(RunMain) /\ WF_vars(Finish) /\ WF_vars(Tell) /\ WF_vars(Join)
        /\ \A i \in W : WF_vars(RunWorker(i)) /\ WF_vars(Leave(i))
(* nothing is left behind *)
Released == pc = "none" => heap = 0 /\ threads = 0
(* repeating a call leaves the holdings as they are *)
Settled == [][(pc' = "idle" /\ pc = "wait" /\ prev # <<>> /\ prev[1] = want) => (prev' = prev)]_vars
(* destruction always completes *)
Ends == (pc = "tell") ~> (pc = "none")
CallEnds == (pc = "grow") ~> (pc = "idle")
=============================================================================
