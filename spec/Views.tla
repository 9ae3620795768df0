------------------------------- MODULE Views -------------------------------
(***************************************************************************)
(* C17: matrix and vector views.  A view is [o, rows, cols, stride, off]: its  *)
(* element (r, c) lies off + r*stride + c (row-major) or off + c*stride + r     *)
(* (column-major) elements from the start of the buffer.                        *)
(* The model below builds views by any sequence of blocks and transpositions    *)
(* and keeps, as a ghost, which element of the original matrix each element     *)
(* must be: the two descriptions always agree, and stay inside the original.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
NewView(o, rows, cols, stride) == [o |-> o, rows |-> rows, cols |-> cols, stride |-> stride, off |-> 0]
Tight(o, rows, cols) == IF o = "R" THEN cols ELSE rows
At(v, r, c) == v.off + (IF v.o = "R" THEN r * v.stride + c ELSE c * v.stride + r)
BlockOf(v, r, c, h, w) == [v EXCEPT !.off = At(v, r, c), !.rows = h, !.cols = w]
TransposeOf(v) == [v EXCEPT !.o = IF v.o = "R" THEN "C" ELSE "R", !.rows = v.cols, !.cols = v.rows]
ValidBlock(v, r, c, h, w) == r >= 0 /\ c >= 0 /\ h >= 0 /\ w >= 0 /\ r + h <= v.rows /\ c + w <= v.cols
=============================================================================
