-------------------------- MODULE FixedPointTrace --------------------------
(***************************************************************************)
(* Conformance for C12.  Every event is one call of a primitive on a raw      *)
(* type: the operands and the result of every lane.  A lane's result must be  *)
(* the definition applied to that lane's operands - so every lane of every    *)
(* vector type equals the scalar version, which is judged by the same rule.   *)
(* Operand combinations the library leaves undefined are not constrained.     *)
(***************************************************************************)
EXTENDS FixedPointOps, TLC, Json, IOUtils, Bitwise
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l
vars == <<tr, l>>
Ev == Traces[tr].ev
E == Ev[l]

Lo(ty) == IF ty = 32 THEN I32Min ELSE IF ty = 16 THEN I16Min ELSE -128
Hi(ty) == IF ty = 32 THEN I32Max ELSE IF ty = 16 THEN I16Max ELSE 127

(* bitwise operators on two's complement numbers, on 16-bit halves *)
Lo16(x) == x % 65536
Hi16(x) == (x \div 65536) % 65536
Join(h, w) == (IF h >= 32768 THEN h - 65536 ELSE h) * 65536 + w
BAnd(a, b) == Join(Hi16(a) & Hi16(b), Lo16(a) & Lo16(b))
BOr(a, b) == Join(Hi16(a) | Hi16(b), Lo16(a) | Lo16(b))
BXor(a, b) == Join(Hi16(a) ^^ Hi16(b), Lo16(a) ^^ Lo16(b))
BNot(a) == -1 - a
Mask(p) == IF p THEN -1 ELSE 0

AddOk(ty, a, b) == AddFits(a, b) /\ a + b >= Lo(ty) /\ a + b <= Hi(ty)
SubOk(ty, a, b) == IF b = I32Min THEN a < 0 ELSE AddOk(ty, a, -b)
(* products: judged when they fit, |a|*|b| <= hi *)
MulOk(ty, a, b) ==
  IF a = 0 \/ b = 0 THEN TRUE
  ELSE IF a = Lo(ty) \/ b = Lo(ty) THEN (a = 1 \/ b = 1)
  ELSE Abs(a) <= Hi(ty) \div Abs(b)
ShlOk(ty, a, e) ==
  IF e = 0 THEN TRUE
  ELSE IF e >= 31 THEN (a = 0 \/ a = -1)
  ELSE a <= Hi(ty) \div Pow2[e] /\ a >= -((-(Lo(ty) + 1)) \div Pow2[e]) - (IF (-(Lo(ty) + 1)) % Pow2[e] = Pow2[e] - 1 THEN 1 ELSE 0)
Shl(a, e) == IF e >= 31 THEN (IF a = 0 THEN 0 ELSE I32Min) ELSE a * Pow2[e]
Shr(a, e) == IF e >= 31 THEN (IF a < 0 THEN -1 ELSE 0) ELSE a \div Pow2[e]
RHalf(a, b) == HalfFloor(a, b) + (IF HalfOdd(a, b) THEN 1 ELSE 0)

Unary(ty, op, e, a) ==
  CASE op = "neg" -> -a
    [] op = "not" -> BNot(a)
    [] op = "mnz" -> Mask(a # 0)
    [] op = "mz" -> Mask(a = 0)
    [] op = "id" -> a
    [] op = "rdpot" -> RDPOT(a, e)
    [] op = "shr" -> Shr(a, e)
    [] op = "shl" -> Shl(a, e)
    [] op = "srmbp" -> SRMBP(a, e, Lo(ty), Hi(ty))
    [] op = "fd" -> ClampI(RDPOT(a, e), Lo(ty), Hi(ty))
    [] op = "td" -> a
UnaryOk(ty, op, e, a) ==
  CASE op = "neg" -> a # Lo(ty)
    [] op = "shl" -> ShlOk(ty, a, e)
    [] OTHER -> TRUE
Binary(ty, op, a, b) ==
  CASE op \in {"srdhm", "fmul"} -> IF ty = 32 THEN SRDHM(a, b) ELSE SRDHM16(a, b)
    [] op = "half" -> RHalf(a, b)
    [] op = "add" -> a + b
    [] op = "sub" -> IF b = I32Min THEN a + I32Max + 1 ELSE a - b
    [] op = "mul" -> a * b
    [] op = "and" -> BAnd(a, b)
    [] op = "or" -> BOr(a, b)
    [] op = "xor" -> BXor(a, b)
    [] op = "meq" -> Mask(a = b)
    [] op = "mne" -> Mask(a # b)
    [] op = "mgt" -> Mask(a > b)
    [] op = "mge" -> Mask(a >= b)
    [] op = "mlt" -> Mask(a < b)
    [] op = "mle" -> Mask(a <= b)
    [] op = "sadd" -> ClampI(a + b, Lo(ty), Hi(ty))
    [] op = "rdpotv" -> RDPOT(a, b)
    [] op = "shlv" -> Shl(a, b)
BinaryOk(ty, op, a, b) ==
  CASE op = "add" -> AddOk(ty, a, b)
    [] op = "sub" -> SubOk(ty, a, b)
    [] op = "mul" -> MulOk(ty, a, b)
    [] op = "shlv" -> ShlOk(ty, a, b)
    [] OTHER -> TRUE

Good ==
  CASE E.op = "fault" -> FALSE
    [] E.op = "all" -> E.r[1] = (IF \A i \in DOMAIN E.a : E.a[i] # 0 THEN 1 ELSE 0)
    [] E.op = "any" -> E.r[1] = (IF \E i \in DOMAIN E.a : E.a[i] # 0 THEN 1 ELSE 0)
    [] E.op = "eq" -> E.r[1] = (IF E.a = E.b THEN 1 ELSE 0)
    [] E.op = "ne" -> E.r[1] = (IF E.a = E.b THEN 0 ELSE 1)
    [] E.op = "dup" -> \A i \in DOMAIN E.r : E.r[i] = E.a[1]
    [] E.op = "one" -> \A i \in DOMAIN E.r : E.r[i] = (IF E.e = 0 THEN Hi(E.ty) ELSE Pow2[E.ty - 1 - E.e])
    [] E.op = "pot" -> \A i \in DOMAIN E.r : E.r[i] = Pow2[E.ty - 1 - E.e]
    [] E.op = "sel" -> \A i \in DOMAIN E.r : E.r[i] = BOr(BAnd(E.a[i], E.b[i]), BAnd(BNot(E.a[i]), E.c[i]))
    [] E.b = <<>> -> \A i \in DOMAIN E.r : UnaryOk(E.ty, E.op, E.e, E.a[i]) => E.r[i] = Unary(E.ty, E.op, E.e, E.a[i])
    [] OTHER -> \A i \in DOMAIN E.r : BinaryOk(E.ty, E.op, E.a[i], E.b[i]) => E.r[i] = Binary(E.ty, E.op, E.a[i], E.b[i])

Init == tr \in 1..Len(Traces) /\ l = 1
Next ==
  \/ l <= Len(Ev) /\ (IF Good THEN TRUE ELSE FALSE) /\ l' = l + 1 /\ tr' = tr
  \/ l > Len(Ev) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
