------------------------ MODULE FixedPointMathTrace ------------------------
(***************************************************************************)
(* Conformance for C13: each event is one evaluation: input x with ib integer *)
(* bits, result y of one (vector) lane, result s of the scalar version, and   *)
(* the scalar result m at -x (hm = 1).                                        *)
(***************************************************************************)
EXTENDS FixedPointMath, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l
vars == <<tr, l>>
Ev == Traces[tr].ev
E == Ev[l]
Good ==
  /\ E.fn # "fault"
  /\ E.y = E.s
  /\ CASE E.fn = "exp" -> ExpOK(E.ty, E.ib, E.x, E.y)
       [] E.fn = "tanh" -> TanhOK(E.ty, E.ib, E.x, E.y) /\ (E.hm = 1 => E.m = -E.y)
       [] E.fn = "logistic" ->
            /\ LogisticOK(E.ty, E.ib, E.x, E.y)
            /\ E.hm = 1 => LET d == (E.y - Hi(E.ty)) + E.m IN d \in 0..2 \/ d = -1
       [] E.fn = "recip" -> AbsLe(RecipResidual(Wide(E.ty, E.y), Wide(E.ty, E.x)), RecipTol(E.ty)) /\ E.y >= 0
       [] E.fn = "omx" -> AbsLe(OmxResidual(Wide(E.ty, E.y), Wide(E.ty, E.x)), OmxTol(E.ty))
       [] OTHER -> FALSE
Init == tr \in 1..Len(Traces) /\ l = 1
Next ==
  \/ l <= Len(Ev) /\ (IF Good THEN TRUE ELSE FALSE) /\ l' = l + 1 /\ tr' = tr
  \/ l > Len(Ev) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
