----------------------------- MODULE Partition -----------------------------
(***************************************************************************)
(* C08, design: how a GEMM splits its result over threads.  One behaviour    *)
(* per (rows, limit, kernel rows): the column blocks are handled one after    *)
(* the other; for each, the rows are cut at RoundUp(rows*(t+1)/tasks) and the *)
(* tasks run in any order.  Whatever the order, every entry is written once.  *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences
CONSTANTS MaxRows, Cols, L2Cols, MaxThreads, KernelRowsSet, MinCubic, DepthSize

VARIABLES rows, limit, kr, c, todo, done, wrote, pc
vars == <<rows, limit, kr, c, todo, done, wrote, pc>>

Min(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a > b THEN a ELSE b
CeilQ(a, b) == (a + b - 1) \div b
RoundUp(x, m) == m * CeilQ(x, m)

(* number of threads used *)
MinRows(k) == MaxI(k, 16)
HowMany(lim, r, k) ==
  IF lim = 1 THEN 1
  ELSE LET t == Min(lim, CeilQ(r, MinRows(k))) IN
       IF t <= 1 THEN 1 ELSE MaxI(1, Min(t, (r * Cols * DepthSize) \div MinCubic))

Tasks == HowMany(limit, rows, kr)
Cut(t) == IF t = 0 THEN 0 ELSE Min(rows, RoundUp((rows * t) \div Tasks, kr))

Init ==
  /\ rows \in 1..MaxRows /\ limit \in 1..MaxThreads /\ kr \in KernelRowsSet
  /\ c = 0 /\ pc = "block" /\ todo = {} /\ done = {}
  /\ wrote = [r \in 0..(rows - 1) |-> 0]

Submit ==
  /\ pc = "block" /\ c < Cols
  /\ todo' = 0..(Tasks - 1) /\ done' = {} /\ pc' = "run"
  /\ UNCHANGED <<rows, limit, kr, c, wrote>>

RunTask ==
  /\ pc = "run"
  /\ \E t \in todo :
       /\ todo' = todo \ {t} /\ done' = done \cup {t}
       /\ LET lo == Cut(t)  hi == Cut(t + 1) IN
          wrote' = [r \in DOMAIN wrote |-> IF lo <= r /\ r < hi THEN wrote[r] + 1 ELSE wrote[r]]
  /\ UNCHANGED <<rows, limit, kr, c, pc>>

Wait ==
  /\ pc = "run" /\ todo = {}
  /\ c' = c + L2Cols /\ pc' = "block"
  /\ todo' = {} /\ done' = {} /\ wrote' = [r \in DOMAIN wrote |-> 0]
  /\ UNCHANGED <<rows, limit, kr>>

Finish ==
  /\ pc = "block" /\ c >= Cols /\ pc' = "end"
  /\ UNCHANGED <<rows, limit, kr, c, todo, done, wrote>>

Next == Submit \/ RunTask \/ Wait \/ Finish \/ (pc = "end" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars

Budget == pc = "run" => Cardinality(todo \cup done) <= limit
(* wrote counts, per row, the writes to the current column block *)
NeverTwice == \A r \in DOMAIN wrote : wrote[r] <= 1
Covered == pc = "run" /\ todo = {} => \A r \in DOMAIN wrote : wrote[r] = 1
=============================================================================
