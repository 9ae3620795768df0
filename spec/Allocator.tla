------------------------------ MODULE Allocator ------------------------------
(***************************************************************************)
(* The scratch allocator (internal/allocator.h): rounds of Reserve* Commit    *)
(* GetPointer* Decommit.  Sizes are counted in alignment units.               *)
(* This is both the model that TLC checks exhaustively for small constants    *)
(* (the bump-pointer design satisfies the guarantees) and, through            *)
(* AllocatorGen, the generator of the histories replayed on the real class.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS MaxBlocks, Sizes, Types, MaxRounds

VARIABLES
  phase,    \* "open" | "committed"
  round,    \* number of the current round (the generation)
  blocks,   \* sequence of [ty, size, off]: blocks reserved in this round
  cap,      \* size of the owned storage
  storage,  \* identity of the owned storage (0: none)
  hiwater,  \* the largest total any earlier round committed
  handles,  \* handles ever returned: set of [idx, gen, ty]
  last      \* outcome of the last GetPointer: [h, out] or <<>>
vars == <<phase, round, blocks, cap, storage, hiwater, handles, last>>

RECURSIVE Total(_)
Total(b) == IF b = <<>> THEN 0 ELSE Total(SubSeq(b, 1, Len(b) - 1)) + b[Len(b)].size
RECURSIVE Pow2(_, _)
Pow2(n, p) == IF p >= n THEN p ELSE Pow2(n, 2 * p)
Max(a, b) == IF a > b THEN a ELSE b

Init ==
  /\ phase = "open" /\ round = 0 /\ blocks = <<>> /\ cap = 0 /\ storage = 0
  /\ hiwater = 0 /\ handles = {} /\ last = <<>>

Reserve(ty, size) ==
  /\ phase = "open" /\ Len(blocks) < MaxBlocks
  /\ blocks' = Append(blocks, [ty |-> ty, size |-> size, off |-> Total(blocks)])
  /\ handles' = handles \cup {[idx |-> Len(blocks) + 1, gen |-> round, ty |-> ty]}
  /\ last' = <<>>
  /\ UNCHANGED <<phase, round, cap, storage, hiwater>>

Commit ==
  /\ phase = "open"
  /\ phase' = "committed"
  /\ IF Total(blocks) > cap
     THEN /\ cap' = Pow2(Total(blocks), 1) /\ storage' = storage + 1
     ELSE UNCHANGED <<cap, storage>>
  /\ hiwater' = Max(hiwater, Total(blocks))
  /\ last' = <<>>
  /\ UNCHANGED <<round, blocks, handles>>

(* What a use of a handle must do: give its block, or abort. *)
Valid(h, ty) == phase = "committed" /\ h.gen = round /\ h.ty = ty /\ h.idx <= Len(blocks)
GetPointer(h, ty) ==
  /\ h \in handles
  /\ last' = [h |-> h, ty |-> ty, ok |-> Valid(h, ty),
              off |-> IF Valid(h, ty) THEN blocks[h.idx].off ELSE -1, st |-> storage]
  /\ UNCHANGED <<phase, round, blocks, cap, storage, hiwater, handles>>

Decommit ==
  /\ phase = "committed" /\ round < MaxRounds
  /\ phase' = "open" /\ round' = round + 1 /\ blocks' = <<>> /\ last' = <<>>
  /\ UNCHANGED <<cap, storage, hiwater, handles>>

Next ==
  \/ \E ty \in Types, s \in Sizes : Reserve(ty, s)
  \/ Commit
  \/ \E h \in handles, ty \in Types : GetPointer(h, ty)
  \/ Decommit
Spec == Init /\ [][Next]_vars

Extent(b) == {b.off + i : i \in 0..(b.size - 1)}
Inv ==
  /\ phase = "committed" =>
       /\ \A i, j \in DOMAIN blocks : i # j => Extent(blocks[i]) \cap Extent(blocks[j]) = {}
       /\ \A i \in DOMAIN blocks : \A x \in Extent(blocks[i]) : 0 <= x /\ x < cap
  /\ last # <<>> => (last.ok <=> Valid(last.h, last.ty))
  /\ cap >= hiwater
  /\ cap < 2 * hiwater \/ cap = 0 \/ cap = hiwater
(* storage is replaced only by a commit that needs more than ever before *)
KeepsStorage == [][storage' # storage => (phase = "open" /\ phase' = "committed" /\ hiwater' > hiwater)]_vars
=============================================================================
