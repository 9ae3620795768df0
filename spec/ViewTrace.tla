----------------------------- MODULE ViewTrace -----------------------------
(***************************************************************************)
(* Conformance for C17: sizes, strides, storage order and element addresses   *)
(* of the real views after every operation are those of Views.tla.            *)
(***************************************************************************)
EXTENDS Views, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l, v, vec
vars == <<tr, l, v, vec>>
Ev == Traces[tr].ev
E == Ev[l]
Init == tr \in 1..Len(Traces) /\ l = 1 /\ v = NewView("R", 0, 0, 0) /\ vec = [s |-> "R", off |-> 0, size |-> 0, val |-> 0]
(* what a view says about itself; off, end: distance of data() and of the last element *)
Says(e, w) ==
  /\ e.o = w.o /\ e.rows = w.rows /\ e.cols = w.cols /\ e.stride = w.stride
  /\ e.rs = (IF w.o = "R" THEN w.stride ELSE 1) /\ e.cs = (IF w.o = "R" THEN 1 ELSE w.stride)
  /\ e.off = At(w, 0, 0) /\ e.end = At(w, w.rows - 1, w.cols - 1)
VSays(e, w) == e.o = w.s /\ e.size = w.size /\ e.off = w.off
Flip(s) == IF s = "R" THEN "C" ELSE "R"
M(w) == v' = w /\ Says(E, w) /\ UNCHANGED vec
V(w) == vec' = w /\ VSays(E, w) /\ UNCHANGED v
Step ==
  /\ E.fault = 0 /\ E.changed = 0      \* the data is untouched
  /\ CASE E.op = "N" -> M(NewView(E.ord, E.r, E.c, IF E.st = -1 THEN Tight(E.ord, E.r, E.c) ELSE E.st))
       [] E.op = "B" -> ValidBlock(v, E.r, E.c, E.h, E.w) /\ M(BlockOf(v, E.r, E.c, E.h, E.w))
       [] E.op = "T" -> M(TransposeOf(v))
       [] E.op = "C" -> M(v)
       [] E.op = "A" -> E.at = At(v, E.r, E.c) /\ E.ref = E.at /\ UNCHANGED <<v, vec>>
       [] E.op = "V" -> V([s |-> E.ord, off |-> 0, size |-> E.n, val |-> 0])
       [] E.op = "W" -> V([vec EXCEPT !.off = @ + E.r, !.size = E.n])
       [] E.op = "U" -> V([vec EXCEPT !.s = Flip(@)])
       [] E.op = "P" -> E.at = vec.off + E.r /\ E.ref = E.at /\ UNCHANGED <<v, vec>>
       [] E.op = "D" -> V([s |-> E.ord, off |-> 0, size |-> E.n, val |-> E.val])
       [] E.op = "E" -> V([vec EXCEPT !.size = E.n])
       [] E.op = "Q" -> E.at = vec.val /\ UNCHANGED <<v, vec>>
       [] OTHER -> FALSE
Next ==
  \/ l <= Len(Ev) /\ Step /\ l' = l + 1 /\ tr' = tr
  \/ l > Len(Ev) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
