--------------------------- MODULE FixedPointOps ---------------------------
(***************************************************************************)
(* The integer building blocks (C12), defined mathematically.  TLC's        *)
(* integers are 32 bit, so 64-bit products are formed from 12-bit limbs.     *)
(***************************************************************************)
EXTENDS Integers, Sequences

I32Max == 2147483647
I32Min == -2147483647 - 1
I16Max == 32767
I16Min == -32768

Abs(x) == IF x < 0 THEN -x ELSE x
MaxI(a, b) == IF a > b THEN a ELSE b
MinI(a, b) == IF a < b THEN a ELSE b
ClampI(x, lo, hi) == MinI(MaxI(x, lo), hi)

(* x + y saturated to 32 bits, without overflowing on the way *)
SatAdd32(x, y) ==
  IF x > 0 /\ y > 0 THEN (IF x > I32Max - y THEN I32Max ELSE x + y)
  ELSE IF x < 0 /\ y < 0 THEN (IF x < I32Min - y THEN I32Min ELSE x + y)
  ELSE x + y
AddFits(x, y) ==
  IF x > 0 /\ y > 0 THEN x <= I32Max - y
  ELSE IF x < 0 /\ y < 0 THEN x >= I32Min - y
  ELSE TRUE

(* floor((a*b + 2^30) / 2^31): the rounded high half of the doubled product, *)
(* nearest with ties upwards; the one case that does not fit saturates.       *)
L0(a) == a % 4096
L1(a) == (a \div 4096) % 4096
L2(a) == a \div 16777216
SRDHM(a, b) ==
  IF a = I32Min /\ b = I32Min THEN I32Max
  ELSE
    LET a0 == L0(a)  a1 == L1(a)  a2 == L2(a)
        b0 == L0(b)  b1 == L1(b)  b2 == L2(b)
        c0 == a0 * b0
        c1 == a0 * b1 + a1 * b0 + (c0 \div 4096)
        c2 == a0 * b2 + a1 * b1 + a2 * b0 + 64 + (c1 \div 4096)
        c3 == a1 * b2 + a2 * b1 + (c2 \div 4096)
        c4 == a2 * b2 + (c3 \div 4096)
    IN c4 * 131072 + (c3 % 4096) * 32 + ((c2 % 4096) \div 128)

(* 16 bit: floor((a*b + 2^14) / 2^15) *)
SRDHM16(a, b) ==
  IF a = I16Min /\ b = I16Min THEN I16Max ELSE (a * b + 16384) \div 32768

Pow2 == [e \in 0..30 |-> 2^e]

(* x / 2^e rounded to nearest, ties away from zero *)
RDPOT(x, e) ==
  IF e = 0 THEN x
  ELSE IF e = 31 THEN (IF x >= 1073741824 THEN 1 ELSE IF x <= -1073741824 THEN -1 ELSE 0)
  ELSE LET q == x \div Pow2[e]  r == x % Pow2[e]  h == Pow2[e - 1]
       IN IF x >= 0 THEN (IF r >= h THEN q + 1 ELSE q)
          ELSE (IF r > h THEN q + 1 ELSE q)

(* x * 2^e saturated to [lo, hi] *)
SatShl(x, e, lo, hi) ==
  IF e >= 31 THEN (IF x > 0 THEN hi ELSE IF x < 0 THEN lo ELSE 0)
  ELSE IF x > hi \div Pow2[e] THEN hi
  ELSE IF x < -((-(lo + 1)) \div Pow2[e]) - 1 THEN lo
  ELSE IF x = -((-(lo + 1)) \div Pow2[e]) - 1
       THEN (* exactly lo, or below it *) lo
  ELSE x * Pow2[e]

(* saturating rounding multiplication by 2^e, e of any sign *)
SRMBP(x, e, lo, hi) ==
  IF e = 0 THEN x ELSE IF e > 0 THEN SatShl(x, e, lo, hi) ELSE RDPOT(x, -e)

(* (a+b)/2 rounded to nearest; a and b of equal sign may overflow as a sum.   *)
(* Ties: see RoundingHalfSum in the C12 trace specification.                  *)
HalfFloor(a, b) == (a \div 2) + (b \div 2) + (((a % 2) + (b % 2)) \div 2)
HalfOdd(a, b) == ((a % 2) + (b % 2)) % 2 = 1
=============================================================================
