------------------------------ MODULE ViewGen ------------------------------
(***************************************************************************)
(* Histories of view operations:                                              *)
(*   N type order rows cols stride   a new matrix view (stride -1: contiguous) *)
(*   B r c h w  block   T transpose   C copy   A r c  where is (r, c)           *)
(*   V type shape size   W s len  block of a vector   U transpose   P i         *)
(*   D shape value size  E s len  block of a duplicated value       Q i         *)
(***************************************************************************)
EXTENDS Views, TLC, Json, IOUtils
Depth == atoi(IOEnv.HLEN)
VARIABLES hist, k, v, len, emitted       \* kind of current view: "M", "V", "D"
vars == <<hist, k, v, len, emitted>>
Pick(S) == RandomElement(S)
Small(z) == IF Pick(1..3) = 1 THEN Pick(1..3) ELSE Pick(1..40)
Dim(z) == LET w == Pick(1..10) IN IF w <= 7 THEN Small(z) ELSE IF w <= 9 THEN Pick(41..3000) ELSE Pick(3001..40000)
Fresh(z) ==
  LET o == Pick({"R", "C"})  rows == Dim(z)  cols == Dim(z)
      pad == IF Pick(1..2) = 1 THEN 0 ELSE Pick({1, 2, 5, 16, 1000})
      st == Tight(o, rows, cols) + pad
  IN NewView(o, rows, cols, IF st > 40000 THEN Tight(o, rows, cols) ELSE st)
Init == hist = <<>> /\ k = "" /\ v = NewView("R", 1, 1, 1) /\ len = 0 /\ emitted = FALSE
Same == UNCHANGED <<k, v, len, emitted>>
Add(op) == hist' = Append(hist, op)
NewMatrix == \E nv \in {Fresh(hist)} : \E ty \in {Pick(0..2)} :
  /\ Add(<<"N", ty, nv.o, nv.rows, nv.cols, IF nv.stride = Tight(nv.o, nv.rows, nv.cols) /\ Pick(1..2) = 1 THEN -1 ELSE nv.stride>>)
  /\ k' = "M" /\ v' = nv /\ UNCHANGED <<len, emitted>>
NewVector == \E n \in {Dim(hist)} : Add(<<"V", Pick(0..2), Pick({"R", "C"}), n>>) /\ k' = "V" /\ len' = n /\ UNCHANGED <<v, emitted>>
NewDup == \E n \in {Dim(hist)} : Add(<<"D", Pick({"R", "C"}), Pick({0, 1, -1, 255, -128, 2147483647, -2147483647, 70000}), n>>) /\ k' = "D" /\ len' = n /\ UNCHANGED <<v, emitted>>
Part(n, z) == LET a == Pick(0..(n - 1)) IN <<a, IF Pick(1..3) = 1 THEN n - a ELSE Pick(1..(n - a))>>
Block == k = "M" /\ \E r \in {Part(v.rows, hist)} : \E c \in {Part(v.cols, hist)} :
  /\ Add(<<"B", r[1], c[1], r[2], c[2]>>) /\ v' = BlockOf(v, r[1], c[1], r[2], c[2]) /\ UNCHANGED <<k, len, emitted>>
Transp == k = "M" /\ Add(<<"T">>) /\ v' = TransposeOf(v) /\ UNCHANGED <<k, len, emitted>>
Copy == k = "M" /\ Add(<<"C">>) /\ Same
Where == k = "M" /\ Add(<<"A", Pick({0, v.rows - 1, Pick(0..(v.rows - 1))}), Pick({0, v.cols - 1, Pick(0..(v.cols - 1))})>>) /\ Same
VBlock == k \in {"V", "D"} /\ \E p \in {Part(len, hist)} : Add(<<IF k = "V" THEN "W" ELSE "E", p[1], p[2]>>) /\ len' = p[2] /\ UNCHANGED <<k, v, emitted>>
VTransp == k = "V" /\ Add(<<"U">>) /\ Same
VWhere == k \in {"V", "D"} /\ Add(<<IF k = "V" THEN "P" ELSE "Q", Pick({0, len - 1, Pick(0..(len - 1))})>>) /\ Same
New == NewMatrix \/ NewVector \/ NewDup
Next ==
  \/ Len(hist) < Depth /\ (IF k = "" \/ Pick(1..8) = 1 THEN New ELSE Block \/ Transp \/ Copy \/ Where \/ VBlock \/ VTransp \/ VWhere)
  \/ Len(hist) >= Depth /\ ~emitted /\ emitted' = TRUE /\ PrintT("HIST " \o ToJson(hist)) /\ UNCHANGED <<hist, k, v, len>>
Spec == Init /\ [][Next]_vars
=============================================================================
