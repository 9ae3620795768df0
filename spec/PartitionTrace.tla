--------------------------- MODULE PartitionTrace ---------------------------
(***************************************************************************)
(* Conformance for C08.  For each call the real library made on a context     *)
(* with a recording pool: execs = for each Execute the number of   *)
(* tasks and the rectangles <<r0, r1, c0, c1>> they wrote; h the result computed alone, hr1/hr2    *)
(* the results assembled from the tasks run in other orders, hreal the result  *)
(* with the library's own pool, new the threads it created for this call.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l, limit, created, allowed
vars == <<tr, l, limit, created, allowed>>
Ev == Traces[tr].ev
E == Ev[l]
HW == IF Traces[tr].hw > 0 THEN Traces[tr].hw ELSE 1

Init == tr \in 1..Len(Traces) /\ l = 1 /\ limit = 1 /\ created = 0 /\ allowed = 0

Eff(n) == IF n = 0 THEN HW ELSE n
MaxI(a, b) == IF a > b THEN a ELSE b

Area(q) == (q[2] - q[1]) * (q[4] - q[3])
Disjoint(p, q) == p[2] <= q[1] \/ q[2] <= p[1] \/ p[4] <= q[3] \/ q[4] <= p[3]
Lo(R) == FoldLeft(LAMBDA a, q : IF q[3] < a THEN q[3] ELSE a, 1000000, R)
Hi(R) == FoldLeft(LAMBDA a, q : IF q[4] > a THEN q[4] ELSE a, 0, R)
Inside(q, m, n) == 0 <= q[1] /\ q[2] <= m /\ 0 <= q[3] /\ q[4] <= n

CallOK(e) ==
  /\ \A x \in DOMAIN e.execs : e.execs[x].tasks <= Eff(limit)
  /\ Len(e.execs) > 0 =>
       LET R == TLCEval([x \in 1..Len(e.execs) |-> e.execs[x].r])
           H == TLCEval([x \in 1..Len(e.execs) |-> <<Lo(R[x]), Hi(R[x])>>])
       IN /\ \A x \in DOMAIN R : \A i \in DOMAIN R[x] : Inside(R[x][i], e.m, e.n)
          /\ \A x \in DOMAIN R : \A i, j \in DOMAIN R[x] : i < j => Disjoint(R[x][i], R[x][j])
          \* different Execute calls: different columns, or no common rectangle
          /\ \A x, y \in DOMAIN R : x < y =>
               \/ H[x][2] <= H[y][1] \/ H[y][2] <= H[x][1]
               \/ \A i \in DOMAIN R[x] : \A j \in DOMAIN R[y] : Disjoint(R[x][i], R[y][j])
          /\ FoldLeft(LAMBDA b, S : b + FoldLeft(LAMBDA a, q : a + Area(q), 0, S), 0, R) = e.m * e.n
  /\ e.hr1 = e.h /\ e.hr2 = e.h /\ (e.hreal = <<>> \/ e.hreal = e.h)
  /\ e.recnew = 0                                  \* another pool: the GEMM creates no thread itself
  /\ created + e.new <= MaxI(allowed, Eff(limit) - 1)
  /\ (limit = 1 => e.new = 0)

Step ==
  CASE E.op = "T" -> limit' = E.n /\ UNCHANGED <<created, allowed>>
    [] E.op = "C" -> UNCHANGED <<limit, created, allowed>>
    [] E.op = "N" -> limit' = 1 /\ created' = 0 /\ allowed' = 0
    [] E.op = "G" -> (IF CallOK(E) THEN TRUE ELSE FALSE) /\ created' = created + E.new /\ allowed' = MaxI(allowed, Eff(limit) - 1) /\ UNCHANGED limit
    [] E.op = "H" -> E.fault = 0 /\ E.bad = 0 /\ created' = MaxI(created, Eff(limit) - 1) /\ allowed' = MaxI(allowed, Eff(limit) - 1) /\ UNCHANGED limit
    [] OTHER -> FALSE

Next ==
  \/ l <= Len(Ev) /\ Step /\ l' = l + 1 /\ tr' = tr
  \/ l > Len(Ev) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
