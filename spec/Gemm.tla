-------------------------------- MODULE Gemm --------------------------------
(***************************************************************************)
(* What one GEMM call does to memory (C01, C02, C04).                        *)
(* Matrices live in flat memory; order 0 is row-major, 1 column-major.       *)
(***************************************************************************)
EXTENDS OutputStages, FiniteSets, SequencesExt

Addr(order, stride, r, c) == IF order = 0 THEN r * stride + c ELSE c * stride + r

(* dot product of the offset operands, kept in two limbs because partial sums need not fit in TLC's integers *)
DotLimb == 32768
Dot(a, b, ao, bo) ==
  LET s == FoldLeftDomain(LAMBDA acc, i : LET prd == (a[i] + ao) * (b[i] + bo) IN <<acc[1] + (prd \div DotLimb), acc[2] + (prd % DotLimb)>>, <<0, 0>>, a)
  IN (s[1] + (s[2] \div DotLimb)) * DotLimb + (s[2] % DotLimb)

Row(A, order, stride, r, k) == [i \in 1..k |-> A[Addr(order, stride, r, i - 1) + 1]]
Col(B, order, stride, c, k) == [i \in 1..k |-> B[Addr(order, stride, i - 1, c) + 1]]

ResultAddrs(m, n, order, stride) ==
  {Addr(order, stride, r, c) : r \in 0..(m - 1), c \in 0..(n - 1)}

(* The (r, c) of a result address, given that it is one *)
RowOf(order, stride, a) == IF order = 0 THEN a \div stride ELSE a % stride
ColOf(order, stride, a) == IF order = 0 THEN a % stride ELSE a \div stride
IsResultAddr(m, n, order, stride, a) ==
  /\ a >= 0
  /\ RowOf(order, stride, a) < m /\ ColOf(order, stride, a) < n
=============================================================================
