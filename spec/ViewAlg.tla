------------------------------ MODULE ViewAlg ------------------------------
EXTENDS Views
CONSTANTS MaxDim, MaxPad, MaxOps
VARIABLES base, v, g, n      \* original view, current view, ghost: (r, c) -> element of the original, operations done
vars == <<base, v, g, n>>
Init == \E o \in {"R", "C"}, r \in 1..MaxDim, c \in 1..MaxDim, p \in 0..MaxPad :
  /\ base = NewView(o, r, c, Tight(o, r, c) + p) /\ v = base /\ n = 0
  /\ g = [x \in (0..(r - 1)) \X (0..(c - 1)) |-> x]
DoBlock == /\ n < MaxOps /\ \E r \in 0..v.rows, c \in 0..v.cols, h \in 1..v.rows, w \in 1..v.cols :
             /\ ValidBlock(v, r, c, h, w)
             /\ v' = BlockOf(v, r, c, h, w)
             /\ g' = [x \in (0..(h - 1)) \X (0..(w - 1)) |-> g[<<r + x[1], c + x[2]>>]]
           /\ n' = n + 1 /\ UNCHANGED base
DoTranspose == /\ n < MaxOps /\ v' = TransposeOf(v) /\ n' = n + 1 /\ UNCHANGED base
               /\ g' = [x \in (0..(v.cols - 1)) \X (0..(v.rows - 1)) |-> g[<<x[2], x[1]>>]]
Next == DoBlock \/ DoTranspose \/ (n = MaxOps /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
SameElements == \A x \in DOMAIN g : At(v, x[1], x[2]) = At(base, g[x][1], g[x][2])
Inside == \A x \in DOMAIN g : At(v, x[1], x[2]) \in 0..(base.stride * (IF base.o = "R" THEN base.rows ELSE base.cols) - 1)
Distinct == \A x, y \in DOMAIN g : x # y => At(v, x[1], x[2]) # At(v, y[1], y[2])
Twice == TransposeOf(TransposeOf(v)) = v
=============================================================================
