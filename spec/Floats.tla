------------------------------- MODULE Floats -------------------------------
(* Single-precision rounding of integers: x rounded to 24 significant bits, ties to even. *)
EXTENDS Gemm
Bits(x) == CHOOSE e \in 0..31 : (e = 31 \/ x < Pow2[e]) /\ (e = 0 \/ x >= Pow2[e - 1])
Float24(x) ==
  LET m == Abs(x)
      b == Bits(m)
      s == IF b > 24 THEN b - 24 ELSE 0
      q == m \div Pow2[s]
      r == m % Pow2[s]
      h == IF s = 0 THEN 1 ELSE Pow2[s - 1]
      up == s > 0 /\ (r > h \/ (r = h /\ q % 2 = 1))
      y == (IF up THEN q + 1 ELSE q) * Pow2[s]
  IN IF x < 0 THEN -y ELSE y
=============================================================================
