------------------------------ MODULE Profiler -----------------------------
(***************************************************************************)
(* C16, design of the sampling profiler (profiling/*.h): labelled threads with *)
(* a stack and a lock each, a registry of threads behind the global lock, the  *)
(* profiler thread copying stacks label by label, and a controller that starts *)
(* and finishes it.  A thread that exits first leaves the registry, under the  *)
(* global lock, and then frees its stack.                                      *)
(* Checked: every sample is a stack its thread had; nothing freed is touched;  *)
(* no deadlock; finishing returns.  With EraseFirst = FALSE or Locked = FALSE  *)
(* the checks fail.                                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS T, Labels, MaxDepth, MaxOps, MaxTicks, EraseFirst, Locked
VARIABLES tpc, lab, size, nxt, slock, ops,    \* labelled threads: pc, labels, size, label being pushed, lock owner, ops left
          glock, registry, freed,
          ppc, left, at, copy, ticks,         \* profiler: pc, threads to sample in this round, current thread, copy
          mpc, should, samples, touched       \* controller; genuine/false samples seen; freed memory touched
vars == <<tpc, lab, size, nxt, slock, ops, glock, registry, freed, ppc, left, at, copy, ticks, mpc, should, samples, touched>>
None == 0
P == -1
Zero == [t \in T |-> [i \in 1..MaxDepth |-> 0]]
Init ==
  /\ tpc = [t \in T |-> "run"] /\ lab = Zero /\ size = [t \in T |-> 0] /\ nxt = [t \in T |-> 0]
  /\ slock = [t \in T |-> None] /\ ops = [t \in T |-> MaxOps]
  /\ glock = None /\ registry = {} /\ freed = {}
  /\ ppc = "none" /\ left = {} /\ at = None /\ copy = <<>> /\ ticks = 0
  /\ mpc = "idle" /\ should = FALSE /\ samples = {} /\ touched = FALSE
UP == UNCHANGED <<ppc, left, at, copy, ticks, samples, touched>>
UM == UNCHANGED <<mpc, should>>
Stack(t) == [i \in 1..size[t] |-> lab[t][i]]

(* ------------------------------------------------ labelled threads *)
Want(t) == \* begin an operation
  /\ tpc[t] = "run" /\ ops[t] > 0 /\ ops' = [ops EXCEPT ![t] = @ - 1]
  /\ \/ size[t] < MaxDepth /\ \E x \in Labels : nxt' = [nxt EXCEPT ![t] = x] /\ tpc' = [tpc EXCEPT ![t] = "push0"]
     \/ size[t] > 0 /\ tpc' = [tpc EXCEPT ![t] = "pop0"] /\ UNCHANGED nxt
     \/ t \notin registry /\ tpc' = [tpc EXCEPT ![t] = "reg0"] /\ UNCHANGED nxt
  /\ UNCHANGED <<lab, size, slock, glock, registry, freed>> /\ UP /\ UM
SLock(t) == \/ Locked /\ slock[t] = None /\ slock' = [slock EXCEPT ![t] = t]
            \/ ~Locked /\ UNCHANGED slock
SUnlock(t) == slock' = [slock EXCEPT ![t] = IF Locked THEN None ELSE @]
Acq(t) == /\ tpc[t] \in {"push0", "pop0"} /\ SLock(t)
          /\ tpc' = [tpc EXCEPT ![t] = IF @ = "push0" THEN "push1" ELSE "pop1"]
          /\ UNCHANGED <<lab, size, nxt, ops, glock, registry, freed>> /\ UP /\ UM
Push1(t) == /\ tpc[t] = "push1" /\ lab' = [lab EXCEPT ![t][size[t] + 1] = nxt[t]]
            /\ tpc' = [tpc EXCEPT ![t] = "push2"] /\ UNCHANGED <<size, nxt, slock, ops, glock, registry, freed>> /\ UP /\ UM
Push2(t) == /\ tpc[t] = "push2" /\ size' = [size EXCEPT ![t] = @ + 1] /\ tpc' = [tpc EXCEPT ![t] = "rel"]
            /\ UNCHANGED <<lab, nxt, slock, ops, glock, registry, freed>> /\ UP /\ UM
Pop1(t) == /\ tpc[t] = "pop1" /\ size' = [size EXCEPT ![t] = @ - 1] /\ tpc' = [tpc EXCEPT ![t] = "rel"]
           /\ UNCHANGED <<lab, nxt, slock, ops, glock, registry, freed>> /\ UP /\ UM
Rel(t) == /\ tpc[t] = "rel" /\ SUnlock(t) /\ tpc' = [tpc EXCEPT ![t] = "run"]
          /\ UNCHANGED <<lab, size, nxt, ops, glock, registry, freed>> /\ UP /\ UM
Reg(t) == /\ tpc[t] = "reg0" /\ glock = None /\ registry' = registry \cup {t} /\ tpc' = [tpc EXCEPT ![t] = "run"]
          /\ UNCHANGED <<lab, size, nxt, slock, ops, glock, freed>> /\ UP /\ UM
Exit(t) == /\ tpc[t] = "run" /\ ops[t] = 0 /\ tpc' = [tpc EXCEPT ![t] = IF EraseFirst THEN "erase" ELSE "free"]
           /\ UNCHANGED <<lab, size, nxt, slock, ops, glock, registry, freed>> /\ UP /\ UM
Erase(t) == /\ tpc[t] = "erase" /\ glock = None /\ registry' = registry \ {t}
            /\ tpc' = [tpc EXCEPT ![t] = IF EraseFirst THEN "free" ELSE "dead"]
            /\ UNCHANGED <<lab, size, nxt, slock, ops, glock, freed>> /\ UP /\ UM
Free(t) == /\ tpc[t] = "free" /\ freed' = freed \cup {t} /\ tpc' = [tpc EXCEPT ![t] = IF EraseFirst THEN "dead" ELSE "erase"]
           /\ UNCHANGED <<lab, size, nxt, slock, ops, glock, registry>> /\ UP /\ UM

(* ------------------------------------------------ profiler thread *)
UT == UNCHANGED <<tpc, lab, size, nxt, ops, registry, freed>>
Loop == /\ ppc = "loop"
        /\ ppc' = IF should THEN "print" ELSE IF ticks < MaxTicks THEN "tick" ELSE "loop"
        /\ UNCHANGED <<slock, glock, left, at, copy, ticks, samples, touched>> /\ UT /\ UM
Tick == /\ ppc = "tick" /\ glock = None /\ glock' = P /\ left' = registry /\ ticks' = ticks + 1 /\ ppc' = "pick"
        /\ UNCHANGED <<slock, at, copy, samples, touched>> /\ UT /\ UM
PickT == /\ ppc = "pick" /\ left # {}
         /\ \E t \in left :
              /\ touched' = (touched \/ t \in freed)
              /\ \/ Locked /\ slock[t] = None /\ slock' = [slock EXCEPT ![t] = P]
                 \/ ~Locked /\ UNCHANGED slock
              /\ at' = t /\ left' = left \ {t}
         /\ copy' = <<>> /\ ppc' = "copy" /\ UNCHANGED <<glock, ticks, samples>> /\ UT /\ UM
Copy == /\ ppc = "copy" /\ Len(copy) < size[at] /\ copy' = Append(copy, lab[at][Len(copy) + 1])
        /\ touched' = (touched \/ at \in freed)
        /\ UNCHANGED <<slock, glock, ppc, left, at, ticks, samples>> /\ UT /\ UM
Copied == /\ ppc = "copy" /\ Len(copy) >= size[at]
          /\ samples' = samples \cup {copy = Stack(at)}
          /\ touched' = (touched \/ at \in freed)
          /\ slock' = [slock EXCEPT ![at] = IF Locked THEN None ELSE @]
          /\ at' = None /\ ppc' = "pick" /\ UNCHANGED <<glock, left, copy, ticks>> /\ UT /\ UM
EndTick == /\ ppc = "pick" /\ left = {} /\ glock' = None /\ ppc' = "loop"
           /\ UNCHANGED <<slock, left, at, copy, ticks, samples, touched>> /\ UT /\ UM
Print == /\ ppc = "print" /\ glock = None /\ ppc' = "exited"
         /\ UNCHANGED <<slock, glock, left, at, copy, ticks, samples, touched>> /\ UT /\ UM

(* ------------------------------------------------ controller *)
UC == UNCHANGED <<tpc, lab, size, nxt, slock, ops, glock, registry, freed, left, at, copy, ticks, samples, touched>>
StartP == /\ mpc = "idle" /\ glock = None /\ mpc' = "on" /\ ppc' = "loop" /\ UNCHANGED should /\ UC
FinishP == /\ mpc = "on" /\ glock = None /\ should' = TRUE /\ mpc' = "join" /\ UNCHANGED ppc /\ UC
Join == /\ mpc = "join" /\ ppc = "exited" /\ mpc' = "end" /\ UNCHANGED <<ppc, should>> /\ UC
Over == mpc = "end" /\ \A t \in T : tpc[t] = "dead"

Thread(t) == Want(t) \/ Acq(t) \/ Push1(t) \/ Push2(t) \/ Pop1(t) \/ Rel(t) \/ Reg(t) \/ Exit(t) \/ Erase(t) \/ Free(t)
Prof == Loop \/ Tick \/ PickT \/ Copy \/ Copied \/ EndTick \/ Print
Ctl == StartP \/ FinishP \/ Join
Next == (\E t \in T : Thread(t)) \/ Prof \/ Ctl \/ (Over /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Prof) /\ SF_vars(StartP) /\ SF_vars(FinishP) /\ WF_vars(Join) /\ \A t \in T : WF_vars(Thread(t)) /\ SF_vars(Erase(t)) /\ SF_vars(Reg(t)) /\ SF_vars(Acq(t))
Genuine == FALSE \notin samples
NoFreedTouched == ~touched
FinishReturns == (mpc = "join") ~> (mpc = "end")
ThreadsExit == \A t \in T : <>(tpc[t] = "dead")
=============================================================================
