---------------------------- MODULE BlockingTrace ----------------------------
(* Conformance for C10: block sizes the real library chose (B) and values its rounding helpers returned (H, P). *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l
vars == <<tr, l>>
BL == INSTANCE Blocking WITH MaxRows <- 1, MaxCols <- 1, MaxDepth <- 1, MaxThreads <- 1, KR <- 1, KC <- 1, KD <- 1, RS <- 1,
        L1s <- {1}, L2s <- {1}, Factors <- {1}, rows <- 1, cols <- 1, depth <- 1, t <- 1, l1 <- 1, l2 <- 1, f <- 1
Ev == Traces[tr].ev
E == Ev[l]
Init == tr \in 1..Len(Traces) /\ l = 1

LeastMultiple(m, x, y) == y % m = 0 /\ y >= x /\ y - x < m
GreatestMultiple(m, x, y) == y % m = 0 /\ y <= x /\ x - y < m
LeastQuotient(m, x, q) == q * m >= x /\ (q - 1) * m < x
IsPow2(y) == y \in {2 ^ i : i \in 0..30}
LeastPow2(x, y) == IsPow2(y) /\ y >= x /\ (y = 1 \/ y \div 2 < x)

EvOK(e) ==
  CASE e.op = "B" -> e.fault = 0 /\ BL!Constraints(e.p, e.rows, e.cols, e.depth, e.kr, e.kc, e.kd, e.rs)
    [] e.op = "H" ->
         /\ LeastMultiple(e.m, e.x, e.up) /\ LeastMultiple(e.m, e.x, e.upz) /\ GreatestMultiple(e.m, e.x, e.down)
         /\ LeastQuotient(e.m, e.x, e.cq) /\ LeastQuotient(e.m, e.x, e.cqz)
         /\ e.x > 0 => LeastPow2(e.x, e.p2) /\ LeastPow2(e.x, e.p2z)
    [] e.op = "P" ->   \* wide values hi * 2^31 + lo with hi >= 1
         /\ e.r[2] = 0 /\ IsPow2(e.r[1])
         /\ (e.r[1] > e.x[1] \/ (e.r[1] = e.x[1] /\ e.x[2] = 0))
         /\ (e.r[1] = 1 \/ e.r[1] \div 2 < e.x[1] \/ (e.r[1] \div 2 = e.x[1] /\ e.x[2] > 0))
Next ==
  \/ l <= Len(Ev) /\ (IF EvOK(E) THEN TRUE ELSE FALSE) /\ l' = l + 1 /\ tr' = tr
  \/ l > Len(Ev) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
