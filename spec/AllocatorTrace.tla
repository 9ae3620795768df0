--------------------------- MODULE AllocatorTrace ---------------------------
(***************************************************************************)
(* Conformance for C09: recorded operations of a real Allocator.  Every event *)
(* lists the storage obtained (al: <<id, units>>) and released (fr: ids)      *)
(* during it; a pointer is reported as <<storage id, unit offset, remainder,  *)
(* remainder of its address by the alignment>>.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l, phase, blocks, owned, hiwater, place
vars == <<tr, l, phase, blocks, owned, hiwater, place>>
Ev == Traces[tr].ev
E == Ev[l]

SizeOf(ty) == IF ty <= 1 THEN 1 ELSE IF ty <= 3 THEN 2 ELSE 4
Units(ty, n) == (n + 64 \div SizeOf(ty) - 1) \div (64 \div SizeOf(ty))
Total(b) == FoldLeft(LAMBDA a, x : a + x.units, 0, b)
MaxI(a, b) == IF a > b THEN a ELSE b

Init ==
  /\ tr \in 1..Len(Traces) /\ l = 1 /\ phase = "open" /\ blocks = <<>>
  /\ owned = [x \in {} |-> 0] /\ hiwater = 0 /\ place = [x \in {} |-> <<>>]

(* storage obtained and released by this event *)
Obtained == [x \in {E.al[i][1] : i \in DOMAIN E.al} |-> E.al[CHOOSE i \in DOMAIN E.al : E.al[i][1] = x][2]]
Owned2 == LET fr == {E.fr[i] : i \in DOMAIN E.fr}
              a == owned @@ Obtained
          IN [x \in DOMAIN a \ fr |-> a[x]]
FreesOwn == \A i \in DOMAIN E.fr : E.fr[i] \in DOMAIN (owned @@ Obtained)
(* while committed, storage holding a handed-out block stays *)
Quiet == E.al = <<>> /\ E.fr = <<>>

Step ==
  CASE "fault" \in DOMAIN E /\ E.fault # 0 -> FALSE
    [] E.op = "R" ->
         /\ phase = "open" /\ FreesOwn
         /\ blocks' = Append(blocks, [ty |-> E.ty, n |-> E.n, units |-> Units(E.ty, E.n)])
         /\ owned' = Owned2 /\ UNCHANGED <<phase, hiwater, place>>
    [] E.op = "C" ->
         /\ phase = "open" /\ FreesOwn
         /\ (Total(blocks) <= hiwater) => Quiet        \* kept, not reallocated
         /\ owned' = Owned2 /\ phase' = "committed" /\ hiwater' = MaxI(hiwater, Total(blocks))
         /\ place' = [x \in {} |-> <<>>] /\ UNCHANGED blocks
    [] E.op = "G" ->
         /\ E.fault = 0 /\ phase = "committed" /\ E.i <= Len(blocks) /\ Quiet
         /\ LET b == blocks[E.i]
                p == E.p
            IN /\ p[4] = 0                                                     \* aligned
               /\ b.units > 0 =>
                    /\ p[1] \in DOMAIN owned /\ p[3] = 0
                    /\ p[2] >= 0 /\ p[2] + b.units <= owned[p[1]]              \* inside owned storage
                    /\ \A j \in DOMAIN place : (j # E.i /\ blocks[j].units > 0 /\ place[j][1] = p[1]) =>
                         (place[j][2] + blocks[j].units <= p[2] \/ p[2] + b.units <= place[j][2])
               /\ E.i \in DOMAIN place => place[E.i] = p                       \* stable
               /\ E.intact = 1                                                 \* earlier contents of all blocks kept
               /\ place' = (E.i :> p) @@ place
         /\ UNCHANGED <<phase, blocks, owned, hiwater>>
    [] E.op = "D" ->
         /\ phase = "committed" /\ FreesOwn
         /\ phase' = "open" /\ blocks' = <<>> /\ owned' = Owned2 /\ place' = [x \in {} |-> <<>>] /\ UNCHANGED hiwater
    [] E.op = "L" ->                                   \* empty rounds
         /\ E.fault = 0 /\ phase = "open" /\ blocks = <<>> /\ Quiet /\ UNCHANGED <<phase, blocks, owned, hiwater, place>>
    [] E.op = "X" ->                                   \* a misuse must abort (nomem: if the storage has to grow)
         /\ E.aborted = 1 \/ (E.kind = "nomem" /\ (Total(blocks) = 0 \/ \E x \in DOMAIN owned : owned[x] >= Total(blocks)))
         /\ UNCHANGED <<phase, blocks, owned, hiwater, place>>
    [] E.op = "Z" -> FreesOwn /\ owned' = Owned2 /\ UNCHANGED <<phase, blocks, hiwater, place>>
    [] OTHER -> FALSE

Next ==
  \/ l <= Len(Ev) /\ Step /\ l' = l + 1 /\ tr' = tr
  \/ l > Len(Ev) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
