----------------------------- MODULE ProfTrace -----------------------------
(***************************************************************************)
(* Conformance for C16: an execution of labelled threads and the profiler is   *)
(* allowed iff every printed profile is one that sampling could have produced:  *)
(* the profiler sleeps, then takes one stack of every registered thread, and    *)
(* so on until it finishes.  A stack taken in one round is one the thread had   *)
(* at some moment of the round; a thread registered for only part of a round    *)
(* is sampled or not.  Which is hidden, so `rems` holds every multiset of       *)
(* samples that may still be to come.  Labels change between XxxB and XxxE.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l,
          stks,      \* thread -> set of stacks it may have now
          reg,       \* thread -> subset of BOOLEAN: may be registered / not registered
          prof,      \* profiler thread, or -1
          pend,      \* a round is going on
          poss,      \* thread -> what a sample of this round may be
          rems,      \* sets of samples that may remain
          cnts,      \* possible numbers of registered threads since FinB
          fin
vars == <<tr, l, stks, reg, prof, pend, poss, rems, cnts, fin>>
Ev == Traces[tr].ev
E == Ev[l]
Threads(ev) == {ev[i].t : i \in DOMAIN ev} \cup {ev[i].c : i \in {j \in DOMAIN ev : ev[j].e = "ThreadCreate"}}

(* ------------------------------------------------ the printed profile *)
Round(p, n) == (p * n + 5000) \div 10000
Abs(x) == IF x < 0 THEN -x ELSE x
ShareOk(p, n) == n > 0 /\ Abs(p * n - Round(p, n) * 10000) <= n
RECURSIVE PathsFrom(_, _, _)
PathsFrom(ls, i, prev) ==
  IF i > Len(ls) THEN <<>>
  ELSE LET p == SubSeq(prev, 1, ls[i].d - 1) \o <<ls[i].l>> IN <<p>> \o PathsFrom(ls, i + 1, p)
DepthsOk(ls) == \A i \in DOMAIN ls : ls[i].d >= 1 /\ ls[i].d <= (IF i = 1 THEN 1 ELSE ls[i - 1].d + 1)
OtherOf(p) == IF p = <<>> THEN "other (outside of any label)" ELSE "other"
IsOther(p) == p # <<>> /\ p[Len(p)] = OtherOf(SubSeq(p, 1, Len(p) - 1))
Parent(p) == SubSeq(p, 1, Len(p) - 1)
SumOver(f, S) == LET RECURSIVE go(_)
                     go(T) == IF T = {} THEN 0 ELSE LET x == CHOOSE y \in T : TRUE IN f[x] + go(T \ {x})
                 IN go(S)
TreeOk(fe) ==
  LET ls == fe.lines
      n == fe.samples IN
  /\ fe.heads = 1 /\ fe.bad = "" /\ n >= 0 /\ DepthsOk(ls)
  /\ \A i \in DOMAIN ls : ShareOk(ls[i].p, n)
  /\ LET paths == PathsFrom(ls, 1, <<>>)
         w == [i \in DOMAIN ls |-> Round(ls[i].p, n)]
         kids(p) == {i \in DOMAIN paths : Len(paths[i]) = Len(p) + 1 /\ Parent(paths[i]) = p}
     IN /\ \A i, j \in DOMAIN paths : i # j => paths[i] # paths[j]
        /\ \A i \in DOMAIN paths : kids(paths[i]) # {} =>
              SumOver(w, kids(paths[i])) = w[i] /\ \E k \in kids(paths[i]) : IsOther(paths[k])
        /\ kids(<<>>) # {} => SumOver(w, kids(<<>>)) = n /\ \E k \in kids(<<>>) : IsOther(paths[k])
        /\ \A i \in DOMAIN paths : IsOther(paths[i]) => kids(paths[i]) = {}
(* stack -> number of samples of exactly that stack *)
Samples(fe) ==
  LET ls == fe.lines
      n == fe.samples
      paths == PathsFrom(ls, 1, <<>>)
      w == [i \in DOMAIN ls |-> Round(ls[i].p, n)]
      at(p) == CHOOSE i \in DOMAIN paths : paths[i] = p
      hasKids(p) == \E i \in DOMAIN paths : Len(paths[i]) = Len(p) + 1 /\ Parent(paths[i]) = p
      dom == {<<>>} \cup {paths[i] : i \in {j \in DOMAIN paths : ~IsOther(paths[j])}}
  IN [p \in dom |-> IF hasKids(p) THEN w[at(Append(p, OtherOf(p)))] ELSE IF p = <<>> THEN n ELSE w[at(p)]]
RECURSIVE NextFin(_, _)
NextFin(ev, i) == IF i > Len(ev) THEN 0 ELSE IF ev[i].e = "FinE" THEN i ELSE NextFin(ev, i + 1)

(* ------------------------------------------------ sampling *)
None == [r |-> FALSE, s |-> <<>>]
ObsOf(sk, rg) == (IF TRUE \in rg THEN {[r |-> TRUE, s |-> x] : x \in sk} ELSE {}) \cup (IF FALSE \in rg THEN {None} ELSE {})
TakeOne(ms, o) == {[m EXCEPT ![o.s] = @ - 1] : m \in {y \in ms : o.s \in DOMAIN y /\ y[o.s] > 0}}
RECURSIVE TakeAll(_, _, _)
TakeAll(ms, ps, T) ==
  IF T = {} \/ ms = {} THEN ms
  ELSE LET t == CHOOSE x \in T : TRUE
           nx == UNION {IF o.r THEN TakeOne(ms, o) ELSE ms : o \in ps[t]}
       IN TakeAll(nx, ps, T \ {t})
Counts(rg) == LET lo == Cardinality({t \in DOMAIN rg : rg[t] = {TRUE}})
                  hi == Cardinality({t \in DOMAIN rg : TRUE \in rg[t]}) IN lo..hi

Init ==
  /\ tr \in 1..Len(Traces) /\ l = 1
  /\ LET T == Threads(Ev) IN
       /\ stks = [t \in T |-> {<<>>}] /\ reg = [t \in T |-> {FALSE}]
       /\ poss = [t \in T |-> {}]
  /\ prof = -1 /\ pend = FALSE /\ rems = {} /\ cnts = {} /\ fin = FALSE

(* thread t's stack / registration may now be sk / rg *)
Become(t, sk, rg) ==
  /\ stks' = [stks EXCEPT ![t] = sk] /\ reg' = [reg EXCEPT ![t] = rg]
  /\ poss' = IF pend THEN [poss EXCEPT ![t] = @ \cup ObsOf(sk, rg)] ELSE poss
  /\ cnts' = IF fin THEN cnts \cup Counts(reg') ELSE cnts
  /\ UNCHANGED <<prof, pend, rems, fin>>
Same == UNCHANGED <<stks, reg, prof, pend, poss, rems, cnts, fin>>
One(S) == CHOOSE x \in S : TRUE
Top(f, k) == [f EXCEPT ![Len(f)] = k]
Round0 == [t \in DOMAIN stks |-> ObsOf(stks[t], reg[t])]
CloseRound == IF pend THEN TakeAll(rems, poss, DOMAIN poss) ELSE rems
Idle0(ms) == \A x \in DOMAIN ms : ms[x] = 0

Step ==
  CASE E.e = "PushB" -> LET s == One(stks[E.t]) IN Become(E.t, {s, Append(s, E.k)}, reg[E.t])
    [] E.e = "PopB"  -> LET s == One(stks[E.t]) IN Become(E.t, {s, SubSeq(s, 1, Len(s) - 1)}, reg[E.t])
    [] E.e = "UpdB"  -> LET s == One(stks[E.t]) IN Become(E.t, {s, Top(s, E.k)}, reg[E.t])
    [] E.e = "PushE" -> Become(E.t, {CHOOSE s \in stks[E.t] : \A x \in stks[E.t] : Len(x) <= Len(s)}, reg[E.t])
    [] E.e = "PopE"  -> Become(E.t, {CHOOSE s \in stks[E.t] : \A x \in stks[E.t] : Len(x) >= Len(s)}, reg[E.t])
    [] E.e = "UpdE"  -> Become(E.t, {CHOOSE s \in stks[E.t] : s[Len(s)] = Ev[l - 1 - (CHOOSE d \in 0..(l - 2) : Ev[l - 1 - d].t = E.t /\ Ev[l - 1 - d].e = "UpdB" /\ \A b \in 0..(d - 1) : ~(Ev[l - 1 - b].t = E.t /\ Ev[l - 1 - b].e = "UpdB"))].k}, reg[E.t])
    [] E.e = "RegB"  -> Become(E.t, stks[E.t], {TRUE, FALSE})
    [] E.e = "RegE"  -> Become(E.t, stks[E.t], {TRUE})
    [] E.e = "Bye"   -> Become(E.t, stks[E.t], reg[E.t] \cup {FALSE})
    [] E.e = "ThreadExit" /\ E.t # prof -> Become(E.t, stks[E.t], {FALSE})
    [] E.e = "StartB" ->
         /\ prof = -1
         /\ LET f == NextFin(Ev, l) IN
              IF f = 0 THEN rems' = {} ELSE TreeOk(Ev[f]) /\ rems' = {Samples(Ev[f])}
         /\ prof' = -2 /\ UNCHANGED <<stks, reg, pend, poss, cnts, fin>>
    [] E.e = "ThreadCreate" /\ prof = -2 /\ E.t = 0 -> prof' = E.c /\ UNCHANGED <<stks, reg, pend, poss, rems, cnts, fin>>
    [] E.e = "StartE" -> prof >= 0 /\ Same
    [] E.e = "FinB"   -> prof >= 0 /\ fin' = TRUE /\ cnts' = Counts(reg) /\ UNCHANGED <<stks, reg, prof, pend, poss, rems>>
    [] E.e = "Sleep" /\ E.t = prof ->
         /\ rems' = CloseRound /\ rems' # {}
         /\ pend' = TRUE /\ poss' = Round0 /\ UNCHANGED <<stks, reg, prof, cnts, fin>>
    [] E.e = "ThreadExit" /\ E.t = prof ->
         /\ rems' = CloseRound /\ rems' # {}
         /\ pend' = FALSE /\ UNCHANGED <<stks, reg, prof, poss, cnts, fin>>
    [] E.e = "FinE"   ->
         /\ ~pend /\ \E m \in rems : Idle0(m)
         /\ E.threads \in cnts
         /\ prof' = -1 /\ fin' = FALSE /\ rems' = {} /\ cnts' = {} /\ UNCHANGED <<stks, reg, pend, poss>>
    [] E.e \in {"ThreadCreate", "ThreadJoin", "Sleep"} -> Same
    [] E.e = "End"    -> E.alive = 0 /\ Same
    [] OTHER          -> FALSE         \* Race, UseAfterFree, Deadlock, Livelock, Abort, ...
Next ==
  \/ l <= Len(Ev) /\ Step /\ l' = l + 1 /\ tr' = tr
  \/ l > Len(Ev) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
