--------------------------- MODULE ResourcesTrace ---------------------------
(***************************************************************************)
(* Conformance for C19: recorded histories of one context (or the legacy      *)
(* API's, or one worker pool): G a call, R the last call many times over, Z   *)
(* its destruction (or FreePersistentResources).  b, y, t: memory blocks and  *)
(* bytes the library holds and threads it has running.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l
vars == <<tr, l>>
Ev == Traces[tr].ev
E == Ev[l]
Good(e) ==
  /\ e.fault = 0
  /\ CASE e.op = "G" -> e.ran = e.tasks
       (* however many times a call is repeated, what is held settles *)
       [] e.op = "R" -> \E i \in 1..((2 * Len(e.lives)) \div 3) : \A j \in i..Len(e.lives) : e.lives[j] = e.lives[i]
       (* nothing is left *)
       [] e.op = "Z" -> e.b = 0 /\ e.y = 0 /\ e.t = 0
Init == tr \in 1..Len(Traces) /\ l = 1
Next ==
  \/ l <= Len(Ev) /\ (IF Good(E) THEN TRUE ELSE FALSE) /\ l' = l + 1 /\ tr' = tr
  \/ l > Len(Ev) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
