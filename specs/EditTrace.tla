------------------------------ MODULE EditTrace ------------------------------
(* Cutting and joining files: which samples the result has, and when they are  *)
(* presented.                                                                  *)
EXTENDS TraceBase, Mp4Read, Mp4Write
V(p) == BParts(p)
\* of each trace, the files it is made of and the file that was made
Entry(f, t) == LET e == EntryOf(f, t)[1] IN
  IF e.type = avc1
  THEN LET c == SelectSeq(Boxes(f, e.in + 78, e.end), LAMBDA x : x.type = avcC)[1]
           ns == U16(f, c.in + 6) np == U16(f, c.in + 9 + ns) IN
       [sps |-> At(f, c.in + 8, ns), pps |-> At(f, c.in + 11 + ns, np), w |-> U16(f, e.in + 24), h |-> U16(f, e.in + 26)]
  ELSE LET c == SelectSeq(Boxes(f, e.in + 28, e.end), LAMBDA x : x.type = esds)[1]
           es == Desc(f, c.in + 4) dc == Desc(f, es.in + 3) ds == Desc(f, dc.in + 13) cfg == U16(f, ds.in) \div 8 IN
       [object |-> cfg \div 256, rate |-> Rates[((cfg \div 16) % 16) + 1], channels |-> cfg % 16]
Parsed(d) == LET ts == Sub(d, TopOf(d, moov)[1], trak) trs == Tracks(d) IN [d |-> d, trs |-> trs, entry |-> [i \in 1..Len(trs) |-> Entry(d, ts[i])]]
FileOf == [t \in 1..Len(Traces) |-> LET F == {k \in 1..Len(Traces[t].ev) : Traces[t].ev[k].op = "file"} IN
             [n \in {Traces[t].ev[k].f : k \in F} |-> Parsed(Traces[t].ev[CHOOSE k \in F : Traces[t].ev[k].f = n].d)]]
Ended(t) == {k \in 1..Len(Traces[t].ev) : Traces[t].ev[k].op = "end"}
Out == [t \in 1..Len(Traces) |-> IF Ended(t) = {} THEN <<>> ELSE Traces[t].ev[CHOOSE k \in Ended(t) : TRUE].file]
Made == [t \in 1..Len(Traces) |-> IF Sound(Out[t]) THEN Made1(Out[t]) ELSE <<>>]

VARIABLE parts, opt        \* what was joined so far: [f, from, to, shown]; what was asked for
vars == <<tid, l, parts, opt>>
Src(p) == FileOf[tid][p.f]
Visual(trs) == LET S == {i \in DOMAIN trs : trs[i].kind = vide} IN IF S = {} THEN 0 ELSE MinN(S)
\* files that can be joined: the same streams in the same order, described alike
Alike(a, b) == Len(a.trs) = Len(b.trs) /\ \A i \in DOMAIN a.trs : a.trs[i].kind = b.trs[i].kind /\
   (IF a.trs[i].kind = vide THEN a.entry[i].sps = b.entry[i].sps /\ a.entry[i].pps = b.entry[i].pps ELSE a.entry[i] = b.entry[i])
\* where the streams may be entered
From(trs, p) == LET v == Visual(trs) IN IF p.shown /\ p.from # <<>> /\ v # 0 THEN {trs[v].dec[i] : i \in OnShow(trs[v], p.from)} ELSE {p.from}
\* every way to enter: one choice for each stream
RECURSIVE Mixes(_, _, _, _)
Mixes(trs, v, i, s) == IF s = 0 THEN {<<>>} ELSE {Append(c, e) : c \in Mixes(trs, v, i, s - 1), e \in Follow(trs, v, i, s)}
Ways(trs, p) == LET v == IF Visual(trs) = 0 THEN 1 ELSE Visual(trs) IN
                UNION {UNION {Mixes(trs, v, i, Len(trs)) : i \in Start(trs[v], t)} : t \in From(trs, p)}
Taken(tr, e, p) == SelectSeq([j \in 1..tr.n |-> j], LAMBDA j : j >= e /\ (p.to # <<>> => BLt(Shown(tr, j), p.to)) /\ (opt.trim => BLe(p.from, Shown(tr, j))))
Lists(trs, w, p) == [s \in DOMAIN trs |-> Taken(trs[s], w[s], p)]
Full(ls) == \A s \in DOMAIN ls : ls[s] # <<>>
\* the samples of a part stand in the result behind the first b[s] of each stream
SameBytes(x, ls, b) == \A s \in DOMAIN ls : \A j \in 1..Len(ls[s]) :
   LET o == Made[tid][s] k == b[s] + j tr == x.trs[s] i == ls[s][j] IN
   /\ k <= o.n /\ o.size[k] = tr.size[i] /\ o.at[k] >= 0 /\ o.at[k] + BNat(o.size[k]) <= Len(Out[tid])
   /\ At(Out[tid], o.at[k], BNat(o.size[k])) = At(x.d, BNat(tr.off[i]), BNat(tr.size[i]))
   /\ (tr.kind = vide => (k \in o.sync <=> i \in tr.sync))
Tol == BAdd(BInt(25000), BMul(BMaxOf({TickHns(Made[tid][s].scale) : s \in DOMAIN Made[tid]}), 3))
SameTimes(x, ls, b) ==
  LET o == Made[tid] IN
  \A s \in DOMAIN ls : \A j \in 1..Len(ls[s]) :
     Near(BAdd(Shown(o[s], b[s] + j), Shown(x.trs[1], ls[1][1])), BAdd(Shown(o[1], b[1] + 1), Shown(x.trs[s], ls[s][j])), Tol)
\* where a part begins and ends in the result
Begins(ls, b, s) == BMinOf({Shown(Made[tid][s], b[s] + j) : j \in 1..Len(ls[s])})
Ends(x, ls, b, s) == LET j == CHOOSE q \in 1..Len(ls[s]) : \A i \in 1..Len(ls[s]) : BLe(Shown(x.trs[s], ls[s][i]), Shown(x.trs[s], ls[s][q])) IN
                     BAdd(Shown(Made[tid][s], b[s] + j), x.trs[s].dr[ls[s][j]])
\* no stream goes back, and one goes on at once
GoesOn(ls, b, ends) ==
  ends = <<>> \/ ((\A s \in DOMAIN ls : BLe(ends[s], BAdd(Begins(ls, b, s), Tol))) /\ (\E s \in DOMAIN ls : BLe(Begins(ls, b, s), BAdd(ends[s], Tol))))
RECURSIVE Match(_, _, _)
Match(i, b, ends) ==
  IF i > Len(parts) THEN \A s \in DOMAIN b : b[s] = Made[tid][s].n
  ELSE LET p == parts[i] x == Src(p) IN
       \E w \in Ways(x.trs, p) : LET ls == Lists(x.trs, w, p) IN
          /\ Full(ls) /\ SameBytes(x, ls, b) /\ SameTimes(x, ls, b) /\ GoesOn(ls, b, ends)
          /\ Match(i + 1, [s \in DOMAIN b |-> b[s] + Len(ls[s])], [s \in DOMAIN b |-> Ends(x, ls, b, s)])
\* the streams are described as in the first file
Nth(x, s) == Cardinality({i \in 1..s - 1 : x.trs[i].kind = x.trs[s].kind})
ScaleOf(x, s) == LET c == {k \in DOMAIN opt.scale : opt.scale[k].video = (x.trs[s].kind = vide) /\ opt.scale[k].s = Nth(x, s)} IN IF c = {} THEN x.trs[s].scale ELSE opt.scale[MaxN(c)].v
Same(x) == LET ts == Sub(Out[tid], TopOf(Out[tid], moov)[1], trak) IN
  /\ Len(Made[tid]) = Len(x.trs)
  /\ \A s \in DOMAIN x.trs : /\ Made[tid][s].kind = x.trs[s].kind /\ Made[tid][s].scale = ScaleOf(x, s)
                             /\ IF x.trs[s].kind = vide THEN VideoOk(Out[tid], ts[s], x.entry[s]) ELSE Made[tid][s].lang = x.trs[s].lang /\ AudioOk(Out[tid], ts[s], x.entry[s])
Joined == Made[tid] # <<>> /\ parts # <<>> /\ Same(Src(parts[1])) /\ Match(1, [s \in DOMAIN Made[tid] |-> 0], <<>>)
Part(e) == [f |-> e.f, from |-> V(e.from), to |-> V(e.to), shown |-> e.shown]
Step(e) ==
  CASE e.op \in {"file", "start"} -> UNCHANGED <<parts, opt>>
    [] e.op \in {"shift", "distance"} -> UNCHANGED <<parts, opt>>
    [] e.op = "trim" -> opt' = [opt EXCEPT !.trim = TRUE] /\ UNCHANGED parts
    [] e.op = "scale" -> opt' = [opt EXCEPT !.scale = Append(@, [video |-> e.video, s |-> e.s, v |-> V(e.scale)])] /\ UNCHANGED parts
    [] e.op = "add" /\ e.ok -> /\ (parts # <<>> => Alike(Src(parts[1]), Src(e))) = TRUE
                               /\ parts' = Append(parts, Part(e)) /\ UNCHANGED opt
    [] e.op = "add" /\ ~e.ok -> (parts # <<>> /\ ~Alike(Src(parts[1]), Src(e))) = TRUE /\ UNCHANGED <<parts, opt>>
    [] e.op = "end" -> (~e.left /\ Joined) = TRUE /\ UNCHANGED <<parts, opt>>
    [] OTHER -> FALSE
TInit == TraceInit /\ parts = <<>> /\ opt = [trim |-> FALSE, scale |-> <<>>]
TNext == Advance /\ Step(Ev)
TSpec == TInit /\ [][TNext]_vars
==============================================================================
