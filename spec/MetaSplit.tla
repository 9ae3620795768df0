----------------------------- MODULE MetaSplit -----------------------------
(***************************************************************************)
(* C15, design: how a meta GEMM is cut.  A call is first cut over threads     *)
(* along its longer dimension (equal parts, the last one takes the rest);     *)
(* each part asks for scratch of its own, laid out one after another.  With a *)
(* cache-friendly executor a part is then cut again, into passes that pack    *)
(* at most as many chunks as fit the scratch of the part.  Parts run in any   *)
(* order.  Whatever the order: every line of the long dimension is computed   *)
(* exactly once, no pass is empty, no pass packs more chunks than fit, and    *)
(* parts use disjoint scratch within what was asked for.                      *)
(***************************************************************************)
EXTENDS Integers, FiniteSets
CONSTANTS MaxDim, MinDim, MaxThreads, ChunkSet, AvailSet
VARIABLES dim, threads, chunk, avail,     \* the call
          todo,                           \* parts not started
          cur, pass,                      \* part being executed (or -1), next pass
          times,                          \* line -> how often computed
          used                            \* part -> chunks of scratch it used at most
vars == <<dim, threads, chunk, avail, todo, cur, pass, times, used>>
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
CeilQ(a, b) == (a + b - 1) \div b
Parts == Max2(1, Min2(threads, dim \div MinDim))
PartLen(i) == LET q == dim \div Parts IN IF i < Parts - 1 THEN q ELSE dim - (Parts - 1) * q
PartOff(i) == i * (dim \div Parts)
Passes(len) == CeilQ(CeilQ(len, chunk), avail)
PassDim(len) == chunk * CeilQ(CeilQ(len, chunk), Passes(len))
PassLen(len, p) == IF p < Passes(len) - 1 THEN PassDim(len) ELSE len - (Passes(len) - 1) * PassDim(len)
Init ==
  /\ dim \in 1..MaxDim /\ threads \in 1..MaxThreads /\ chunk \in ChunkSet /\ avail \in AvailSet
  /\ todo = 0..(Parts - 1) /\ cur = -1 /\ pass = 0
  /\ times = [x \in 0..(dim - 1) |-> 0] /\ used = [i \in 0..(Parts - 1) |-> 0]
Start == /\ cur = -1 /\ \E i \in todo : cur' = i /\ todo' = todo \ {i}
         /\ pass' = 0 /\ UNCHANGED <<dim, threads, chunk, avail, times, used>>
Pass ==
  /\ cur # -1 /\ pass < Passes(PartLen(cur))
  /\ LET len == PartLen(cur)
         lo == PartOff(cur) + pass * PassDim(len)
         n == PassLen(len, pass) IN
     /\ times' = [x \in DOMAIN times |-> IF lo <= x /\ x < lo + n THEN times[x] + 1 ELSE times[x]]
     /\ used' = [used EXCEPT ![cur] = Max2(@, CeilQ(n, chunk))]
  /\ pass' = pass + 1 /\ UNCHANGED <<dim, threads, chunk, avail, todo, cur>>
Finish == /\ cur # -1 /\ pass = Passes(PartLen(cur)) /\ cur' = -1 /\ pass' = 0
          /\ UNCHANGED <<dim, threads, chunk, avail, todo, times, used>>
Done == cur = -1 /\ todo = {}
Next == Start \/ Pass \/ Finish \/ (Done /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
NeverTwice == \A x \in DOMAIN times : times[x] <= 1
Covered == Done => \A x \in DOMAIN times : times[x] = 1
Fits == \A i \in DOMAIN used : used[i] <= avail
NoEmptyPass == cur # -1 => \A p \in 0..(Passes(PartLen(cur)) - 1) : PassLen(PartLen(cur), p) > 0
=============================================================================
