------------------------------- MODULE Mp4Read -------------------------------
(* What a reader of an MP4 file answers. A track is a record of module Mp4;   *)
(* samples count from 1 here.                                                 *)
EXTENDS Mp4
BMaxOf(S) == CHOOSE x \in S : \A y \in S : BLe(y, x)
BMinOf(S) == CHOOSE x \in S : \A y \in S : BLe(x, y)
BSum(s) == FoldLeft(BAdd, <<>>, s)
Idx(tr) == 1..tr.n
\* the samples being decoded at a time: those with the latest decoding time not after it
DecAt(tr, t) == LET v == BMaxOf({tr.dec[i] : i \in {j \in Idx(tr) : BLe(tr.dec[j], t)}}) IN {i \in Idx(tr) : tr.dec[i] = v}
\* the random access point a decoder starts from to show what is decoded at sample i
MaxN(S) == CHOOSE x \in S : \A y \in S : y <= x
MinN(S) == CHOOSE x \in S : \A y \in S : y >= x
KeyOf(tr, i) == LET S == {k \in tr.sync : k <= i} IN IF S = {} THEN MinN(tr.sync) ELSE MaxN(S)
NextKey(tr, i) == LET S == {k \in tr.sync : k > KeyOf(tr, i)} IN IF S = {} THEN MaxN(tr.sync) ELSE MinN(S)
\* the sample on show at a time, or the next one to be shown
OnShow(tr, t) ==
  LET before == {i \in Idx(tr) : BLe(tr.comp[i], t)}
      after == {i \in Idx(tr) : BLt(t, tr.comp[i])}
      same == {i \in before : tr.comp[i] = t}
      last == IF before = {} THEN {} ELSE LET v == BMaxOf({tr.comp[i] : i \in before}) IN {i \in before : tr.comp[i] = v}
      next == IF after = {} THEN {} ELSE LET v == BMinOf({tr.comp[i] : i \in after}) IN {i \in after : tr.comp[i] = v}
  IN IF same # {} THEN same ELSE last \cup next
\* where to start reading track s so as to play from time t on
Start(tr, t) == IF tr.hasSync THEN {KeyOf(tr, i) : i \in DecAt(tr, t)}
                ELSE IF BLt(t, tr.offset) THEN {1} ELSE OnShow(tr, BSub(t, tr.offset))
\* a track is over when its last sample is: reading it may then go on with no sample at all
Over(tr, t) == BLe(Hns(BAdd(tr.rdec[tr.n], tr.rdur[tr.n]), tr.scale), t)
\* and the other tracks, when track s starts at its sample i
Follow(trs, s, i, o) ==
  IF o = s THEN {i}
  ELSE IF trs[o].n = 0 THEN {1}
  ELSE IF trs[o].hasSync THEN DecAt(trs[o], trs[s].dec[i]) \cup (IF Over(trs[o], trs[s].dec[i]) THEN {trs[o].n + 1} ELSE {})
  ELSE LET at == BAdd(trs[s].comp[i], trs[s].offset) IN IF BLe(at, trs[o].offset) THEN {1} ELSE OnShow(trs[o], BSub(at, trs[o].offset))
\* the walk through the file: the track whose next sample is stored first
NextIn(trs, pos) == LET L == {s \in DOMAIN trs : pos[s] <= trs[s].n} IN
                    {s \in L : \A q \in L : BLe(trs[s].off[pos[s]], trs[q].off[pos[q]])}
==============================================================================
