--------------------------- MODULE FixedPointMath ---------------------------
(***************************************************************************)
(* What the fixed-point functions approximate (C13).  Numbers in [0,1] are in  *)
(* units of 2^-31.  exp(-n*2^-fb) is the product of exp(-2^j) over the bits of *)
(* n, an algorithm unrelated to the library's; tanh and logistic are judged by *)
(* the equations they satisfy, t(1+e) = 1-e and y(1+e) = 1, with e that        *)
(* exponential, so no division is needed.                                      *)
(***************************************************************************)
EXTENDS FixedPointOps, ExpTable

One31 == I32Max          \* 1.0, up to one unit
BitAt(n, p) == (n \div Pow2[p]) % 2

(* exp(-(n / 2^fb)), 0 <= n < 2^31, 0 <= fb <= 31 *)
RECURSIVE Prod(_, _, _, _)
Prod(n, fb, j, acc) ==
  IF j > 4 THEN acc
  ELSE LET p == j + fb
       IN Prod(n, fb, j + 1, IF p >= 0 /\ p <= 30 /\ BitAt(n, p) = 1 THEN SRDHM(acc, ExpC(j)) ELSE acc)
ExpOf(n, fb) ==
  IF fb + 5 <= 30 /\ n >= Pow2[fb + 5] THEN 0      \* beyond 32: below half a unit
  ELSE LET low == IF fb >= 16 THEN (n % Pow2[fb - 15]) * Pow2[31 - fb] ELSE 0
       IN Prod(n, fb, -15, One31 - low)
(* exp(-2^k) *)
ExpPow(k) == IF k > 4 THEN 0 ELSE ExpC(k)

(* |a - b| <= t without overflow *)
Near(a, b, t) == LET d == SatAdd32(a, -b) IN d <= t /\ d >= -t

(* tolerances in units of 2^-31; e in the same units *)
Scale16 == 65536
Rel(ty, e) == IF ty = 32 THEN SRDHM(640, e) + 12 ELSE SRDHM(144180, e) + 72090           \* of an exponential e
OverOnePlus(v, e) == (v * 128) \div (128 + e \div 16777216) + 1                             \* v / (1+e), rounded up
ExpTol(ty, e) == Rel(ty, e)
TanhTol(ty, e) == 2 * OverOnePlus(Rel(ty, e), e) + (IF ty = 32 THEN 26 ELSE 21 * Scale16)
LogisticTol(ty, e) == OverOnePlus(Rel(ty, e), e) + (IF ty = 32 THEN 14 ELSE 12 * Scale16)
RecipTol(ty) == IF ty = 32 THEN 16 ELSE 11 * Scale16 + 32768
OmxTol(ty) == IF ty = 32 THEN 28 ELSE 22 * Scale16

(* raw value of a type in units of 2^-31 / as an input with the same integer bits *)
Wide(ty, v) == IF ty = 32 THEN v ELSE v * Scale16
Lo(ty) == IF ty = 32 THEN I32Min ELSE I16Min
Hi(ty) == IF ty = 32 THEN I32Max ELSE I16Max
(* exp(-|x|) for a raw input x with ib integer bits *)
ExpAbs(ty, ib, x) ==
  LET w == Wide(ty, x) IN IF w = I32Min THEN ExpPow(ib) ELSE ExpOf(Abs(w), 31 - ib)
(* exp(-2|x|): one more integer bit for the same raw number *)
ExpTwice(ty, ib, x) ==
  LET w == Wide(ty, x) IN IF w = I32Min THEN ExpPow(ib + 1) ELSE ExpOf(Abs(w), 31 - (ib + 1))

ExpOK(ty, ib, x, y) == y >= 0 /\ y <= Hi(ty) /\ LET e == ExpAbs(ty, ib, x) IN Near(Wide(ty, y), e, ExpTol(ty, e))
(* residual of t(1+e) = 1 - e *)
OmxResidual(t, e) == SatAdd32(SatAdd32(e - One31, t), SRDHM(t, e))
RecipResidual(y, e) == SatAdd32(y - One31, SRDHM(y, e))
AbsLe(d, t) == d <= t /\ d >= -t
TanhOK(ty, ib, x, y) ==
  /\ y # Lo(ty)
  /\ LET e == ExpTwice(ty, ib, x)
         t == Wide(ty, IF x < 0 THEN -y ELSE y)
     IN AbsLe(OmxResidual(t, e), TanhTol(ty, e))
LogisticOK(ty, ib, x, y) ==
  /\ y >= 0
  /\ LET e == ExpAbs(ty, ib, x)
         v == Wide(ty, y)
     IN IF x >= 0 THEN AbsLe(RecipResidual(v, e), LogisticTol(ty, e))
        ELSE AbsLe(SatAdd32(SatAdd32(v, -e), SRDHM(v, e)), LogisticTol(ty, e))
=============================================================================
