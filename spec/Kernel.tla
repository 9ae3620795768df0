------------------------------- MODULE Kernel -------------------------------
(***************************************************************************)
(* C18: the packed format a kernel declares, and what a kernel computes.      *)
(* A side format is <<w, d, cells, order>>: cells of width w and depth d,     *)
(* `cells` of them side by side; order 0 is depth-major, 1 width-major and    *)
(* 2 diagonal (square cells).  A panel is the packed operand of one run: for  *)
(* each chunk of d levels of depth, its cells one after the other.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

InCell(f, x, k) ==
  CASE f[4] = 0 -> x + k * f[1]
    [] f[4] = 1 -> k + x * f[2]
    [] f[4] = 2 -> (((f[1] + x) - k) * f[1] + k) % (f[1] * f[1])
Width(f) == f[1] * f[3]
Pos(f, x, k) ==
  ((k \div f[2]) * f[3] + (x \div f[1])) * (f[1] * f[2]) + InCell(f, x % f[1], k % f[2])

(* what a run of depth `run` adds to entry (x, y) of its destination block *)
Sum(L, R, lf, rf, x, y, run) ==
  FoldLeftDomain(LAMBDA acc, k : acc + L[Pos(lf, x, k - 1) + 1] * R[Pos(rf, y, k - 1) + 1], 0, [k \in 1..run |-> 0])

(* the destination block: entry (x, y) is at x*rs + y*cs *)
InBlock(rows, cols, rs, cs, a) == \E x \in 0..(rows - 1) : (a - x * rs) >= 0 /\ (a - x * rs) % cs = 0 /\ ((a - x * rs) \div cs) < cols
RowAt(rows, cols, rs, cs, a) == CHOOSE x \in 0..(rows - 1) : (a - x * rs) >= 0 /\ (a - x * rs) % cs = 0 /\ ((a - x * rs) \div cs) < cols
ColAt(rows, cols, rs, cs, a) == (a - RowAt(rows, cols, rs, cs, a) * rs) \div cs
=============================================================================
