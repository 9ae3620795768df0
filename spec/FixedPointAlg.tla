--------------------------- MODULE FixedPointAlg ---------------------------
(***************************************************************************)
(* The algorithms of fixedpoint.h and its SIMD versions, for words of W bits, *)
(* against the mathematical definitions, for all operands and exponents.      *)
(***************************************************************************)
EXTENDS Integers, TLC
CONSTANT W
VARIABLES a, b, e
vars == <<a, b, e>>
Hi == 2^(W - 1) - 1
Lo == -(2^(W - 1))
Wrap(x) == ((x + 2^(W - 1)) % 2^W) - 2^(W - 1)
Sat(x) == IF x > Hi THEN Hi ELSE IF x < Lo THEN Lo ELSE x
TruncDiv(x, d) == IF x >= 0 THEN x \div d ELSE -((-x) \div d)
AbsV(x) == IF x < 0 THEN -x ELSE x
Init == a \in Lo..Hi /\ b \in Lo..Hi /\ e \in 0..(W - 1)
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

(* ---- definitions: the result is the nearest integer, ties as stated ---- *)
\* exact value is a*b / 2^(W-1); nearest integer, ties upwards, saturated
IsSRDHM(r) ==
  LET p == a * b  d == 2^(W - 1)
      exact == (2 * p + d) \div (2 * d)
  IN r = Sat(exact)
\* exact value is a / 2^e; nearest, ties away from zero
IsRDPOT(r) ==
  LET d == 2^e
  IN /\ 2 * AbsV(a - r * d) <= d
     /\ (2 * AbsV(a - r * d) = d) => AbsV(r) * d >= AbsV(a)
IsHalf(r) == 2 * r = a + b \/ 2 * r = a + b + 1

(* ---- the algorithms ---- *)
\* scalar: nudge, then division truncating towards zero
ScalarSRDHM ==
  IF a = Lo /\ b = Lo THEN Hi
  ELSE LET p == a * b
           n == IF p >= 0 THEN 2^(W - 2) ELSE 1 - 2^(W - 2)
       IN TruncDiv(p + n, 2^(W - 1))
\* VQRDMULH (NEON): floor of the doubled product plus rounding, saturated
NeonSRDHM == Sat((2 * a * b + 2^(W - 1)) \div 2^W)
\* SSE/AVX: the rounded product shifted, fixed up where it equals the minimum
SseSRDHM ==
  LET r == Wrap((a * b + 2^(W - 2)) \div 2^(W - 1))
  IN IF a = Lo /\ b = Lo THEN Hi ELSE r
\* generic rounding shift: mask, threshold, compare (as scalar and SSE/AVX do)
MaskRDPOT ==
  LET m == 2^e - 1
      rem == a % 2^e
      thr == (m \div 2) + (IF a < 0 THEN 1 ELSE 0)
  IN (a \div 2^e) + (IF rem > thr THEN 1 ELSE 0)
\* NEON: a fix-up of -1 for negative numbers (saturating), then a shift rounding ties upwards
NeonRDPOT ==
  LET f == IF e # 0 /\ a < 0 THEN -1 ELSE 0
      x == Sat(a + f)
  IN IF e = 0 THEN x ELSE (x + 2^(e - 1)) \div 2^e
\* saturating left shift by comparison with thresholds
CmpShl ==
  LET t == 2^(W - 1 - e) - 1
  IN IF e = 0 THEN a ELSE IF a > t THEN Hi ELSE IF a < -t THEN Lo ELSE a * 2^e
\* half sum without overflow: as SSE/AVX, on the offset (unsigned) numbers
OffsetHalf ==
  LET ua == a + 2^(W - 1)  ub == b + 2^(W - 1)
  IN ((ua + ub + 1) \div 2) - 2^(W - 1)
SumHalf == (a + b + 1) \div 2

Correct ==
  /\ IsSRDHM(ScalarSRDHM) /\ IsSRDHM(NeonSRDHM) /\ IsSRDHM(SseSRDHM)
  /\ IsRDPOT(MaskRDPOT) /\ IsRDPOT(NeonRDPOT)
  /\ CmpShl = Sat(a * 2^e)
  /\ IsHalf(OffsetHalf) /\ IsHalf(SumHalf)
  /\ SumHalf = OffsetHalf
=============================================================================
