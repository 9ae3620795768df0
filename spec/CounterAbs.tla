----------------------------- MODULE CounterAbs ----------------------------
(* C07: what a user of the blocking counter may rely on.                     *)
EXTENDS Naturals, FiniteSets

VARIABLES
  cround,   \* current round (number of resets)
  cn,       \* its initial count
  called,   \* decrements that have been started in this round
  rets,     \* decrements that have returned
  zeros,    \* decrements that reported zero
  cwait     \* number of waits in progress

cAbsVars == <<cround, cn, called, rets, zeros, cwait>>

CInit == cround = 0 /\ cn = 0 /\ called = {} /\ rets = {} /\ zeros = {} /\ cwait = 0

(* A new round may start when the previous one is over. *)
Reset(b, n) ==
  /\ b = cround + 1 /\ cwait = 0 /\ Cardinality(called) = cn
  /\ cround' = b /\ cn' = n /\ called' = {} /\ rets' = {} /\ zeros' = {}
  /\ UNCHANGED cwait
DecCall(b, k) ==
  /\ b = cround /\ k \notin called /\ Cardinality(called) < cn
  /\ called' = called \cup {k}
  /\ UNCHANGED <<cround, cn, rets, zeros, cwait>>
(* Only the last decrement reports zero, and only one does: a decrement that  *)
(* reports zero has seen all decrements started; when every decrement has      *)
(* returned exactly one has reported zero.                                      *)
DecRet(b, k, z) ==
  /\ b = cround /\ k \in called /\ k \notin rets
  /\ rets' = rets \cup {k}
  /\ zeros' = IF z THEN zeros \cup {k} ELSE zeros
  /\ z => (zeros = {} /\ Cardinality(called) = cn)
  /\ Cardinality(rets') = cn => Cardinality(zeros') = 1
  /\ UNCHANGED <<cround, cn, called, cwait>>
WaitCall(b) == b = cround /\ cwait' = cwait + 1 /\ UNCHANGED <<cround, cn, called, rets, zeros>>
WaitRet(b) ==
  /\ b = cround /\ cwait > 0
  /\ Cardinality(called) = cn           \* only after all decrements
  /\ cwait' = cwait - 1
  /\ UNCHANGED <<cround, cn, called, rets, zeros>>
=============================================================================
