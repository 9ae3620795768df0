------------------------------ MODULE Blocking ------------------------------
(***************************************************************************)
(* Cache blocking.  Constraints(p, ...) is what every choice of block sizes   *)
(* must satisfy (the guarantee, C10); Choose is the library's design of the   *)
(* choice (internal/block_params.h) with exact arithmetic.  TLC checks that   *)
(* the design satisfies the guarantee for every shape, thread count and       *)
(* cache setting within the constants.                                        *)
(***************************************************************************)
EXTENDS Integers

CONSTANTS MaxRows, MaxCols, MaxDepth, MaxThreads,
          KR, KC, KD,   \* kernel rows, columns, depth
          RS,           \* depth granularity (register size)
          L1s, L2s, Factors

Ceil(a, b) == (a + b - 1) \div b
Up(m, x) == m * Ceil(x, m)
Max(a, b) == IF a > b THEN a ELSE b
Quo(a, b) == IF a >= 0 THEN a \div b ELSE -((-a) \div b)   \* C division

Constraints(p, rows, cols, depth, kr, kc, kd, rs) ==
  /\ p.l2r > 0 /\ p.l2c > 0 /\ p.l2d > 0 /\ p.l1r > 0 /\ p.l1c > 0 /\ p.l1d > 0
  /\ p.l2r % kr = 0 /\ p.l2c % kc = 0 /\ p.l2d % kd = 0 /\ p.l2d % rs = 0
  /\ p.l1r % kr = 0 /\ p.l1c % kc = 0 /\ p.l1d % kd = 0 /\ p.l1d % rs = 0
  /\ p.l1r <= p.l2r /\ p.l1c <= p.l2c /\ p.l1d <= p.l2d
  /\ p.l2d >= depth                    \* all of the depth is accumulated in one L2 block

L2(rows, cols, depth, t, l2, f) ==
  LET per == Max(1, Up(KR, rows) \div t)
      d == Up(RS, depth)
      mc == Max(1, (f * (l2 \div d)) \div 100)
      c == Up(KC, Ceil(cols, Max(1, Ceil(cols, mc))))
      mr == Max(1, Quo(l2 - d * c, t * (d + 4 * c)))
      r == IF f = 100 THEN Up(KR, per) ELSE Up(KR, Ceil(per, Max(1, Ceil(per, mr))))
  IN <<r, c, d>>
L1(rows, cols, depth, l1) ==
  LET md == Max(1, Quo(l1 - 4 * KR * KC, KR + KC))
      d == Up(RS, Ceil(depth, Max(1, Ceil(depth, md))))
      mr == Max(1, l1 \div (d + 4 * cols))
      r == Up(KR, Ceil(rows, Max(1, Ceil(rows, mr))))
  IN <<r, cols, d>>
Choose(rows, cols, depth, t, l1, l2, f) ==
  LET b == L2(rows, cols, depth, t, l2, f)
      a == L1(b[1], b[2], b[3], l1)
  IN [l2r |-> b[1], l2c |-> b[2], l2d |-> b[3], l1r |-> a[1], l1c |-> a[2], l1d |-> a[3]]

VARIABLES rows, cols, depth, t, l1, l2, f
vars == <<rows, cols, depth, t, l1, l2, f>>
Init ==
  /\ rows \in 1..MaxRows /\ cols \in 1..MaxCols /\ depth \in 1..MaxDepth
  /\ t \in 1..MaxThreads /\ l1 \in L1s /\ l2 \in L2s /\ f \in Factors
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
DesignOK == Constraints(Choose(rows, cols, depth, t, l1, l2, f), rows, cols, depth, KR, KC, KD, RS)
=============================================================================
