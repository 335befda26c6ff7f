--------------------------------- MODULE Parts ---------------------------------
(* Parts of files, x: [d: bytes, trs: tracks]; p: [from, to]: which samples     *)
(* are presented in them, wherever the streams may be entered.                  *)
EXTENDS Fragment
Visual(trs) == LET S == {i \in DOMAIN trs : trs[i].kind = vide} IN IF S = {} THEN 0 ELSE MinN(S)
\* sound begins with the picture
Entries(trs, s, i) ==
  LET v == Visual(trs) IN
  IF v = 0 \/ trs[s].kind = vide THEN {1}
  ELSE LET t == Shown(trs[v], i) S == {j \in 1..trs[s].n : BLe(t, Shown(trs[s], j))} IN
       (IF S = {} THEN {} ELSE {MinN(S)} \cup {j \in {MinN(S) - 1} : j >= 1})
\* every way to enter: one choice for each stream
RECURSIVE Mixes(_, _, _), Routes(_, _, _, _), Cat(_, _)
Cat(q, k) == IF k = 0 THEN <<>> ELSE Cat(q, k - 1) \o q[k]
Mixes(trs, i, s) == IF s = 0 THEN {<<>>} ELSE {Append(c, e) : c \in Mixes(trs, i, s - 1), e \in Entries(trs, s, i)}
Routes(trs, v, i, s) == IF s = 0 THEN {<<>>} ELSE {Append(c, e) : c \in Routes(trs, v, i, s - 1), e \in Follow(trs, v, i, s)}
Ways(x, p) == LET trs == x.trs v == IF Visual(trs) = 0 THEN 1 ELSE Visual(trs) IN
  IF p.from = <<>> THEN Mixes(trs, 1, Len(trs)) ELSE UNION {Routes(trs, v, i, Len(trs)) : i \in Start(trs[v], p.from)}
Taken(tr, e, p) == SelectSeq([j \in 1..tr.n |-> j], LAMBDA j : j >= e /\ (p.to # <<>> => BLt(Shown(tr, j), p.to)))
Lists(x, w, p) == [s \in DOMAIN x.trs |-> Taken(x.trs[s], w[s], p)]
\* before another file a stream may go on until that of the other begins
Longer(tr, e, p) ==
  {Taken(tr, e, p)} \cup
  (IF p.to = <<>> THEN {} ELSE
   LET rest == {j \in e..tr.n : BLe(p.to, Shown(tr, j))}
       next == {k \in rest : Cardinality({j \in rest : BLt(Shown(tr, j), Shown(tr, k))}) < 4}
   IN {SelectSeq([j \in 1..tr.n |-> j], LAMBDA j : j >= e /\ BLe(Shown(tr, j), Shown(tr, k))) : k \in next})
===============================================================================
