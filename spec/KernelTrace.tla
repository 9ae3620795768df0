---------------------------- MODULE KernelTrace ----------------------------
(***************************************************************************)
(* Conformance: recorded runs of the library's kernels on packed operands L   *)
(* and R.  pts lists memory around and inside the destination block: address  *)
(* (the block starts at `lead`), contents before and after the run.           *)
(***************************************************************************)
EXTENDS Kernel, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l
vars == <<tr, l>>
Ev == Traces[tr].ev
E == Ev[l]

After(e, a, before) ==
  IF InBlock(e.rows, e.cols, e.rs, e.cs, a)
  THEN (IF e.start = 0 THEN 0 ELSE before) +
       Sum(e.L, e.R, e.lf, e.rf, RowAt(e.rows, e.cols, e.rs, e.cs, a), ColAt(e.rows, e.cols, e.rs, e.cs, a), e.run)
  ELSE before
Good(e) ==
  /\ e.fault = 0
  /\ e.touched = 0
  /\ e.rows = Width(e.lf) /\ e.cols = Width(e.rf)
  /\ \A i \in DOMAIN e.pts : e.pts[i][3] = After(e, e.pts[i][1] - e.lead, e.pts[i][2])

Init == tr \in 1..Len(Traces) /\ l = 1
Next ==
  \/ l <= Len(Ev) /\ (IF Good(E) THEN TRUE ELSE FALSE) /\ l' = l + 1 /\ tr' = tr
  \/ l > Len(Ev) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
