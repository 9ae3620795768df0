--------------------------- MODULE BlockingCounter --------------------------
(* The counter's algorithm: an atomic count, decremented with acquire-release *)
(* ordering, and a waiter that loads it with acquire ordering until zero.     *)
(* Refines CounterAbs; `know` is the C++ happens-before knowledge.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N, Rounds, DecRelease, DecRMW, WaitAcquire
VARIABLES cround, cn, called, rets, zeros, cwait,
          count, pc, wpc, tmp, zero, know, kcount
abs == <<cround, cn, called, rets, zeros, cwait>>
vars == <<abs, count, pc, wpc, tmp, zero, know, kcount>>
A == INSTANCE CounterAbs
Ks == 1..N
W == 0
Init ==
  /\ A!CInit
  /\ count = 0 /\ pc = [k \in Ks |-> "none"] /\ wpc = "reset" /\ tmp = [k \in Ks |-> 0]
  /\ zero = [k \in Ks |-> FALSE]
  /\ know = [t \in 0..N |-> {}] /\ kcount = {}
WReset(n) ==
  /\ wpc = "reset" /\ cround < Rounds /\ \A k \in Ks : pc[k] \in {"none", "done"}
  /\ A!Reset(cround + 1, n)
  /\ count' = n /\ kcount' = know[W]
  /\ pc' = [k \in Ks |-> IF k <= n THEN "call" ELSE "none"]
  /\ know' = [t \in 0..N |-> know[W]]        \* the decrementing threads are started after the reset
  /\ wpc' = "wait"
  /\ UNCHANGED <<tmp, zero>>
Call(k) ==
  /\ pc[k] = "call" /\ A!DecCall(cround, k)
  /\ know' = [know EXCEPT ![k] = @ \cup {<<cround, k>>}]
  /\ pc' = [pc EXCEPT ![k] = "dec"]
  /\ UNCHANGED <<count, wpc, tmp, zero, kcount>>
Dec(k) ==
  /\ pc[k] = "dec" /\ DecRMW
  /\ count' = count - 1 /\ zero' = [zero EXCEPT ![k] = count = 1]
  /\ kcount' = IF DecRelease THEN kcount \cup know[k] ELSE kcount
  /\ know' = [know EXCEPT ![k] = @ \cup kcount]
  /\ pc' = [pc EXCEPT ![k] = "ret"]
  /\ UNCHANGED <<abs, wpc, tmp>>
DecLoad(k) ==   \* a decrement that is not atomic (negative control)
  /\ pc[k] = "dec" /\ ~DecRMW
  /\ tmp' = [tmp EXCEPT ![k] = count] /\ pc' = [pc EXCEPT ![k] = "store"]
  /\ UNCHANGED <<abs, count, wpc, zero, know, kcount>>
DecStore(k) ==
  /\ pc[k] = "store"
  /\ count' = tmp[k] - 1 /\ zero' = [zero EXCEPT ![k] = tmp[k] = 1]
  /\ kcount' = know[k] /\ pc' = [pc EXCEPT ![k] = "ret"]
  /\ UNCHANGED <<abs, wpc, tmp, know>>
Ret(k) ==
  /\ pc[k] = "ret" /\ A!DecRet(cround, k, zero[k])
  /\ pc' = [pc EXCEPT ![k] = "done"]
  /\ UNCHANGED <<count, wpc, tmp, zero, know, kcount>>
WWait ==
  /\ wpc = "wait" /\ A!WaitCall(cround) /\ wpc' = "spin"
  /\ UNCHANGED <<count, pc, tmp, zero, know, kcount>>
WSpin ==
  /\ wpc = "spin" /\ count = 0 /\ wpc' = "woken"
  /\ know' = [know EXCEPT ![W] = IF WaitAcquire THEN @ \cup kcount ELSE @]
  /\ UNCHANGED <<abs, count, pc, tmp, zero, kcount>>
WRet ==
  /\ wpc = "woken" /\ A!WaitRet(cround) /\ wpc' = "reset"
  /\ UNCHANGED <<count, pc, tmp, zero, know, kcount>>
Over == wpc = "reset" /\ cround = Rounds /\ UNCHANGED vars
Next ==
  \/ \E n \in 0..N : WReset(n)
  \/ WWait \/ WSpin \/ WRet \/ Over
  \/ \E k \in Ks : Call(k) \/ Dec(k) \/ DecLoad(k) \/ DecStore(k) \/ Ret(k)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next) /\ \A k \in Ks : WF_vars(Call(k) \/ Dec(k) \/ Ret(k))
(* the abstract action is enabled whenever the algorithm is about to take it *)
RetAllowed == \A k \in Ks : pc[k] = "ret" => ENABLED A!DecRet(cround, k, zero[k])
WaitAllowed == wpc = "woken" => ENABLED A!WaitRet(cround)
Visible == wpc = "woken" => \A k \in 1..cn : <<cround, k>> \in know[W]
CountOK == count >= 0
Returns == (wpc = "spin") ~> (wpc = "woken")
=============================================================================
