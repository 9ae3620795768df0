---------------------------- MODULE AllocatorGen ----------------------------
(* Histories of allocator operations for the replay harness:
   R type n | C | G i type | D | L n (n empty rounds) | X kind (a misuse, probed in a child process) *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Depth == atoi(IOEnv.HLEN)
Huge == atoi(IOEnv.BIG)
VARIABLES hist, phase, nb, tys, old, emitted
vars == <<hist, phase, nb, tys, old, emitted>>
Pick(S) == RandomElement(S)
N(z) == LET w == Pick(1..10) IN
  IF w = 1 THEN 0 ELSE IF w <= 4 THEN Pick(1..70) ELSE IF w <= 6 THEN Pick({15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097})
  ELSE IF w <= 8 THEN Pick(1..5000) ELSE IF w = 9 THEN Pick(1..200000)
  ELSE IF Huge = 1 THEN Pick({20000000, 65536001, 300000000, 537000000, 1100000000}) ELSE Pick(1..1000000)
T(z) == Pick(0..5)
Init == hist = <<>> /\ phase = "open" /\ nb = 0 /\ tys = <<>> /\ old = 0 /\ emitted = FALSE
Add(op) == hist' = Append(hist, op)
Reserve == phase = "open" /\ nb < 5 /\ \E t \in {T(hist)} : Add(<<"R", t, N(hist)>>) /\ tys' = Append(tys, t) /\ nb' = nb + 1 /\ UNCHANGED <<phase, old, emitted>>
Reserve2 == Reserve
Commit == phase = "open" /\ Add(<<"C">>) /\ phase' = "committed" /\ UNCHANGED <<nb, tys, old, emitted>>
Get == phase = "committed" /\ nb > 0 /\ (\E i \in {Pick(1..nb)} : Add(<<"G", i, tys[i]>>)) /\ UNCHANGED <<phase, nb, tys, old, emitted>>
Get2 == Get
Get3 == Get
GetAll == phase = "committed" /\ nb > 1 /\ hist' = hist \o [i \in 1..nb |-> <<"G", i, tys[i]>>] /\ UNCHANGED <<phase, nb, tys, old, emitted>>
Decommit == phase = "committed" /\ Add(<<"D">>) /\ phase' = "open" /\ old' = old + nb /\ nb' = 0 /\ tys' = <<>> /\ UNCHANGED emitted
Loop == phase = "open" /\ nb = 0 /\ old > 0 /\ Add(<<"L", Pick({1, 2, 255, 256, 65535, 65536})>>) /\ UNCHANGED <<phase, nb, tys, old, emitted>>
(* a handle kept over exactly 2^8 or 2^16 rounds, then used where its index is in range again *)
Wrap == phase = "open" /\ nb = 0 /\ \E t \in {T(hist)}, k \in {Pick({253, 254, 255, 256, 65534, 65535, 65536})} :
  /\ hist' = hist \o << <<"R", t, 7>>, <<"C">>, <<"D">>, <<"L", k>>, <<"R", t, 7>>, <<"C">>, <<"X", "stale", old + 1>> >>
  /\ phase' = "committed" /\ nb' = 1 /\ tys' = <<t>> /\ old' = old + 1 /\ UNCHANGED emitted
(* misuse: a handle of an earlier round, a handle with another type, a handle while not committed,
   and a commit whose allocation fails *)
Stale == old > 0 /\ Add(<<"X", "stale", Pick(1..old)>>) /\ UNCHANGED <<phase, nb, tys, old, emitted>>
WrongType == phase = "committed" /\ nb > 0 /\ (\E i \in {Pick(1..nb)} : Add(<<"X", "type", i, Pick(0..5 \ {tys[i]})>>)) /\ UNCHANGED <<phase, nb, tys, old, emitted>>
Early == phase = "open" /\ nb > 0 /\ (\E i \in {Pick(1..nb)} : Add(<<"X", "early", i, tys[i]>>)) /\ UNCHANGED <<phase, nb, tys, old, emitted>>
Fail == phase = "open" /\ nb > 0 /\ Add(<<"X", "nomem", 1>>) /\ UNCHANGED <<phase, nb, tys, old, emitted>>
Next ==
  \/ Len(hist) < Depth /\ (Reserve \/ Reserve2 \/ Commit \/ Get \/ Get2 \/ Get3 \/ GetAll \/ Decommit \/ Loop \/ Wrap \/ Stale \/ WrongType \/ Early \/ Fail)
  \/ Len(hist) >= Depth /\ ~emitted /\ emitted' = TRUE /\ PrintT("HIST " \o ToJson(hist)) /\ UNCHANGED <<hist, phase, nb, tys, old>>
Spec == Init /\ [][Next]_vars
=============================================================================
