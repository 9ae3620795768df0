----------------------------- MODULE MetaTrace -----------------------------
(***************************************************************************)
(* Conformance for C15: recorded calls of the generated ARM kernels.  Besides *)
(* the results, the memory each task of a call used is judged: tasks write    *)
(* disjoint result entries and disjoint parts of the caller's scratch buffer. *)
(***************************************************************************)
EXTENDS Floats, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l
vars == <<tr, l>>
Ev == Traces[tr].ev
E == Ev[l]
Init == tr \in 1..Len(Traces) /\ l = 1

PtOK(f, p) ==
  LET d == Dot(p.a, p.b, p.ao, p.bo)
  IN IF f = 2 THEN p.v = Float24(d) ELSE p.v = Pipeline(p.st, 1, d)
TasksOK(e) ==
  /\ e.multi = <<>>
  /\ \A i \in DOMAIN e.ext : 0 <= e.ext[i][1] /\ e.ext[i][2] <= e.ssz
  /\ \A i, j \in DOMAIN e.ext : i < j => e.ext[i][2] <= e.ext[j][1] \/ e.ext[j][2] <= e.ext[i][1]
GemmOK(e) ==
  /\ e.fault = 0
  /\ \A i \in DOMAIN e.pts : PtOK(e.f, e.pts[i])
  /\ \A i \in DOMAIN e.odd : IsResultAddr(e.m, e.n, e.so, e.ss, e.odd[i])
  /\ \A i \in DOMAIN e.kept : ~IsResultAddr(e.m, e.n, e.so, e.ss, e.kept[i])
  /\ e.unstable = 0
  /\ TasksOK(e)

(* Transformations.  All parameters are multiples of a quarter and scales are powers of two, so single
   precision is exact and the results are integer functions.  V: the exact value times 64. *)
Trunc64(v) == IF v >= 0 THEN v \div 64 ELSE -((-v) \div 64)
Near64(v) == LET f == v \div 64  r == v % 64 IN IF r > 32 \/ (r = 32 /\ f % 2 = 1) THEN f + 1 ELSE f
Sat8(x) == IF x < 0 THEN 0 ELSE IF x > 255 THEN 255 ELSE x
Rnd(mode, v) == IF mode = 0 THEN Trunc64(v) ELSE Near64(v)
P2(e) == Pow2[e]
(* scale 2^s with s >= -4 applied to a number of 1/64ths that is a multiple of 16 *)
Sc(v, s) == IF s >= 0 THEN v * P2(s) ELSE v \div P2(-s)
XVal(op, p, q, mode) == CASE
     (* quantize: (x - min) * scale + offset, cut to an integer, saturated *)
     op = 0 -> Sat8(Rnd(mode, Sc((q.x - p.min) * 16, p.s) + p.off * 64))
     (* dequantize: (x - offset) * scale + min, recorded in quarters *)
  [] op = 1 -> Sc((q.x - p.off) * 4, p.s) + p.min
     (* requantize: ((x - ioff) * iscale + imin - omin) * oscale *)
  [] op = 2 -> Sat8(Rnd(mode, Sc((q.x - p.off) * 64 * P2(p.s) + (p.min - p.omin) * 16, p.os)))
     (* clamp *)
  [] op = 3 -> LET x == IF q.x < p.min THEN p.min ELSE q.x IN IF x > p.max THEN p.max ELSE x
     (* bias: ((x - ioff) * iscale + imin + (b - boff) * bscale + bmin - omin) * oscale + ooff *)
  [] op = 4 -> Rnd(mode, Sc((q.x - p.off) * 64 * P2(p.s) + p.min * 16 + (q.b - p.boff) * 64 * P2(p.bs) + p.bmin * 16 - p.omin * 16, p.os) + p.ooff * 64)
(* one rounding of the conversion to integer for a whole call: the same for every position *)
XOK(e) ==
  /\ e.fault = 0
  /\ \E mode \in (IF e.x = 2 THEN {0, 1} ELSE {0}) : \A i \in DOMAIN e.pts : e.pts[i].v = XVal(e.x, e.p, e.pts[i], mode)
  /\ e.odd = <<>> /\ e.kept = <<>> /\ e.unstable = 0
  /\ TasksOK(e)
Step == CASE E.op = "G" -> IF GemmOK(E) THEN TRUE ELSE FALSE
          [] E.op = "X" -> IF XOK(E) THEN TRUE ELSE FALSE
Next ==
  \/ l <= Len(Ev) /\ Step /\ l' = l + 1 /\ tr' = tr
  \/ l > Len(Ev) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
