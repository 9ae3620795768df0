------------------------------ MODULE GemmAlg ------------------------------
(***************************************************************************)
(* The blocked GEMM algorithm (single_thread_gemm.h, pack.h, compute.h,       *)
(* unpack.h) as a state machine over every choice of block sizes that         *)
(* satisfies Blocking!Constraints: pack the right side once or per column     *)
(* block, per row block pack the left side with zero padding and per-slice    *)
(* sums, accumulate the kernel in L1 blocks of the depth, then unpack with     *)
(* the offset correction                                                       *)
(*   acc + lsum*roff + rsum*loff + depth*loff*roff.                           *)
(* TLC checks that every entry of the result is written exactly once, with    *)
(* the exact offset-adjusted product, and that every access to a packed       *)
(* buffer is inside it.                                                       *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences

CONSTANTS KR, KC, RS,
          MaxBlk           \* largest number of kernel blocks per L2 block

Shapes == {<<1,1,1>>, <<3,2,1>>, <<5,2,3>>, <<4,4,5>>, <<7,3,4>>, <<5,5,2>>, <<2,6,7>>, <<9,1,3>>}
Min(a, b) == IF a < b THEN a ELSE b
RECURSIVE Sum(_, _, _)
Sum(F(_), a, b) == IF a > b THEN 0 ELSE F(a) + Sum(F, a + 1, b)

A(i, k) == ((3 * i + 5 * k + 1) % 7)
B(k, j) == ((2 * k + 3 * j + 2) % 5)
LO(i) == (i % 3) - 2
RO(j) == 1 - (j % 2)

VARIABLES rows, cols, depth, p, pc, r, c, l1r, l1d, pl, pr, lsum, rsum, acc, res, wr, oob
vars == <<rows, cols, depth, p, pc, r, c, l1r, l1d, pl, pr, lsum, rsum, acc, res, wr, oob>>

Up(m, x) == m * ((x + m - 1) \div m)
Params(d) ==
  {[l2r |-> KR * a, l2c |-> KC * b, l2d |-> Up(RS, d), l1r |-> KR * x, l1c |-> KC * b, l1d |-> RS * y] :
     <<a, b, x, y>> \in {q \in (1..MaxBlk) \X (1..MaxBlk) \X (1..MaxBlk) \X (1..MaxBlk) : q[3] <= q[1] /\ RS * q[4] <= Up(RS, d)}}

Empty == [x \in {} |-> 0]
Init ==
  /\ \E s \in Shapes : rows = s[1] /\ cols = s[2] /\ depth = s[3]
  /\ p \in Params(depth)
  /\ pc = "start" /\ r = 0 /\ c = 0 /\ l1r = 0 /\ l1d = 0
  /\ pl = Empty /\ pr = Empty /\ lsum = Empty /\ rsum = Empty /\ acc = Empty
  /\ res = Empty /\ wr = 0 /\ oob = FALSE

Once == p.l2c >= cols
RS_(x) == Min(p.l2r, rows - x)
CS_(x) == Min(p.l2c, cols - x)
PackR(c0) ==
  /\ pr' = [x \in (0..(p.l2d - 1)) \X (0..(p.l2c - 1)) |->
              IF x[1] < depth /\ x[2] < CS_(c0) THEN B(x[1], c0 + x[2]) ELSE 0]
  /\ rsum' = [j \in 0..(p.l2c - 1) |-> IF j < CS_(c0) THEN Sum(LAMBDA k : B(k, c0 + j), 0, depth - 1) ELSE 0]
PackL(r0) ==
  /\ pl' = [x \in (0..(p.l2r - 1)) \X (0..(p.l2d - 1)) |->
              IF x[1] < RS_(r0) /\ x[2] < depth THEN A(r0 + x[1], x[2]) ELSE 0]
  /\ lsum' = [i \in 0..(p.l2r - 1) |-> IF i < RS_(r0) THEN Sum(LAMBDA k : A(r0 + i, k), 0, depth - 1) ELSE 0]

Start ==
  /\ pc = "start"
  /\ IF Once THEN PackR(0) ELSE UNCHANGED <<pr, rsum>>
  /\ pc' = "packl" /\ UNCHANGED <<rows, cols, depth, p, r, c, l1r, l1d, pl, lsum, acc, res, wr, oob>>
PackLhs ==
  /\ pc = "packl" /\ r < rows
  /\ PackL(r) /\ c' = 0 /\ pc' = "col"
  /\ UNCHANGED <<rows, cols, depth, p, r, l1r, l1d, pr, rsum, acc, res, wr, oob>>
Done ==
  /\ pc = "packl" /\ r >= rows /\ pc' = "done"
  /\ UNCHANGED <<rows, cols, depth, p, r, c, l1r, l1d, pl, pr, lsum, rsum, acc, res, wr, oob>>
Col ==
  /\ pc = "col"
  /\ IF c >= cols
     THEN pc' = "packl" /\ r' = r + p.l2r /\ UNCHANGED <<pr, rsum, acc, l1r, l1d>>
     ELSE /\ IF Once THEN UNCHANGED <<pr, rsum>> ELSE PackR(c)
          /\ acc' = [x \in (0..(p.l2r - 1)) \X (0..(p.l2c - 1)) |-> 99999]   \* not initialised
          /\ l1r' = 0 /\ l1d' = 0 /\ pc' = "compute" /\ UNCHANGED r
  /\ UNCHANGED <<rows, cols, depth, p, c, pl, lsum, res, wr, oob>>
(* one L1 block: rows l1r.., depth l1d.. ; the first depth block overwrites, later ones add *)
Compute ==
  /\ pc = "compute"
  /\ LET hr == Min(p.l1r, p.l2r - l1r)
         hd == Min(p.l1d, p.l2d - l1d)
     IN /\ acc' = [x \in DOMAIN acc |->
              IF x[1] >= l1r /\ x[1] < l1r + hr
              THEN (IF l1d = 0 THEN 0 ELSE acc[x]) + Sum(LAMBDA k : pl[<<x[1], k>>] * pr[<<k, x[2]>>], l1d, l1d + hd - 1)
              ELSE acc[x]]
        /\ oob' = (oob \/ l1r + hr > p.l2r \/ l1d + hd > p.l2d \/ hr % KR # 0)
  /\ IF l1r + p.l1r < p.l2r THEN l1r' = l1r + p.l1r /\ UNCHANGED <<l1d, pc>>
     ELSE IF l1d + p.l1d < p.l2d THEN l1r' = 0 /\ l1d' = l1d + p.l1d /\ UNCHANGED pc
     ELSE pc' = "unpack" /\ UNCHANGED <<l1r, l1d>>
  /\ UNCHANGED <<rows, cols, depth, p, r, c, pl, pr, lsum, rsum, res, wr>>
Unpack ==
  /\ pc = "unpack"
  /\ LET blk == (0..(RS_(r) - 1)) \X (0..(CS_(c) - 1))
         new == [y \in {<<r + x[1], c + x[2]>> : x \in blk} |->
                   LET i == y[1] - r  j == y[2] - c IN
                   acc[<<i, j>>] + lsum[i] * RO(y[2]) + rsum[j] * LO(y[1]) + depth * LO(y[1]) * RO(y[2])]
     IN /\ res' = [y \in DOMAIN res \cup DOMAIN new |-> IF y \in DOMAIN new THEN new[y] ELSE res[y]]
        /\ wr' = wr + Cardinality(DOMAIN new)
  /\ c' = c + p.l2c /\ pc' = "col"
  /\ UNCHANGED <<rows, cols, depth, p, r, l1r, l1d, pl, pr, lsum, rsum, acc, oob>>

Next == Start \/ PackLhs \/ Done \/ Col \/ Compute \/ Unpack \/ (pc = "done" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

InBounds == ~oob
Exact == pc = "done" =>
  /\ DOMAIN res = (0..(rows - 1)) \X (0..(cols - 1))
  /\ wr = rows * cols
  /\ \A y \in DOMAIN res : res[y] = Sum(LAMBDA k : (A(y[1], k) + LO(y[1])) * (B(k, y[2]) + RO(y[2])), 0, depth - 1)
Terminates == <>(pc = "done")
=============================================================================
