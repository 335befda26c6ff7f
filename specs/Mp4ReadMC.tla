------------------------------ MODULE Mp4ReadMC ------------------------------
(* All small movies of two tracks: reading in file order from the beginning   *)
(* and from every point in time, and the arithmetic of looking a time up in   *)
(* tables kept in ticks (there are PerSec units of reported time to a second).*)
EXTENDS Mp4Read, TLC, Integers
CONSTANTS Most, Durs, Offs, Scales, PerSec, MaxT
VARIABLES trs, pos, seen, lead, at
vars == <<trs, pos, seen, lead, at>>
B(n) == IF n = 0 THEN <<>> ELSE <<n>>
RECURSIVE Tot(_, _)
Tot(d, i) == IF i <= 1 THEN 0 ELSE d[i - 1] + Tot(d, i - 1)
Rep(x, s) == (PerSec * x) \div s
SmallHns(t, scale) == B(Rep(BNat(t), scale))
Mk(d, c, s, sync, hasSync, off, place) ==
  LET n == Len(d) IN
  [n |-> n, scale |-> s, d |-> d, c |-> c, s |-> s, sync |-> sync, hasSync |-> hasSync, hasCo |-> TRUE, offset |-> B(off), off |-> [i \in 1..n |-> B(place[i])],
   size |-> [i \in 1..n |-> <<1>>], rdec |-> [i \in 1..n |-> B(Tot(d, i))], rdur |-> [i \in 1..n |-> B(d[i])],
   dec |-> [i \in 1..n |-> B(Rep(Tot(d, i), s))], comp |-> [i \in 1..n |-> B(Rep(Tot(d, i) + c[i], s))]]
Asc(p) == \A i \in 1..Len(p) - 1 : p[i] < p[i + 1]
Places(n, m) == {p \in [1..n -> 1..m] : Asc(p)}
MCInit ==
  /\ \E n \in 1..Most, m \in 1..Most :
       \E d1 \in [1..n -> Durs], d2 \in [1..m -> Durs], c1 \in [1..n -> Offs], s1 \in Scales, s2 \in Scales,
          y \in SUBSET (1..n), o \in {0, 3}, p \in Places(n, n + m) :
          trs = <<Mk(d1, c1, s1, IF y = {} THEN 1..n ELSE y, y # {}, 0, p),
                  Mk(d2, [i \in 1..m |-> 0], s2, 1..m, FALSE, o, SetToSortSeq((1..(n + m)) \ {p[i] : i \in 1..n}, LAMBDA a, b : a < b))>>
  /\ pos = <<1, 1>> /\ seen = <<>> /\ lead = 0 /\ at = 0
Go(t, s) == /\ seen' = <<>> /\ lead' = s /\ at' = t /\ UNCHANGED trs
            /\ \E i \in Start(trs[s], B(t)) : \E a \in Follow(trs, s, i, 1), b \in Follow(trs, s, i, 2) : pos' = <<a, b>>
Next == /\ \E s \in NextIn(trs, pos) : seen' = Append(seen, <<s, pos[s]>>) /\ pos' = [pos EXCEPT ![s] = @ + 1]
        /\ UNCHANGED <<trs, lead, at>>
MCNext == (lead = 0 /\ seen = <<>> /\ \E t \in 0..MaxT, s \in 1..2 : Go(t, s)) \/ Next
MCSpec == MCInit /\ [][MCNext]_vars
\* each sample is read once, by place; from the beginning all of them are
Once == \A i, j \in 1..Len(seen) : i < j => seen[i] # seen[j] /\ BLt(trs[seen[i][1]].off[seen[i][2]], trs[seen[j][1]].off[seen[j][2]])
Whole == (lead = 0 /\ \A s \in 1..2 : pos[s] > trs[s].n) => Len(seen) = trs[1].n + trs[2].n
\* what a seek promises
Entry == (lead # 0 /\ seen = <<>>) => LET tr == trs[lead] i == pos[lead] IN
            tr.hasSync => i \in tr.sync /\ (BLe(tr.dec[i], B(at)) \/ i = MinN(tr.sync))
                          /\ ~\E k \in tr.sync : k > i /\ BLt(tr.dec[k], B(at)) /\ \A j \in 1..tr.n : tr.dec[j] # tr.dec[k] \/ j = k
\* looking up in ticks is looking up in reported time
LastTick(t, s) == ((t + 1) * s - 1) \div PerSec
Lookup == (lead # 0 /\ seen = <<>>) => LET tr == trs[lead] k == LastTick(at, tr.s) IN
            LET S == {i \in 1..tr.n : Tot(tr.d, i) <= k} IN S # {} /\ MaxN(S) \in DecAt(tr, B(at)) /\ \A i \in 1..tr.n : BNat(tr.dec[i]) = at => i \in DecAt(tr, B(at))
Own == \A s \in 1..2 : \A i \in 1..trs[s].n : i \in OnShow(trs[s], trs[s].comp[i]) /\ i \in DecAt(trs[s], trs[s].dec[i])
=============================================================================
