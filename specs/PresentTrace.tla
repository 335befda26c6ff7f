----------------------------- MODULE PresentTrace -----------------------------
(* From files to a presentation: where its streams are cut, and that the       *)
(* fragments made of it hold every sample of the files once.                   *)
EXTENDS TraceBase, Parts
V(p) == BParts(p)
FileOf == [t \in 1..Len(Traces) |-> LET F == {k \in 1..Len(Traces[t].ev) : Traces[t].ev[k].op = "file"} IN
             [n \in {Traces[t].ev[k].f : k \in F} |-> LET e == Traces[t].ev[CHOOSE k \in F : Traces[t].ev[k].f = n] IN [d |-> e.d, trs |-> Tracks(e.d)]]]
VARIABLE parts, long, pts, made     \* the files; the length of a fragment; the points of each stream; the fragments of each stream
vars == <<tid, l, parts, long, pts, made>>
Src(i) == FileOf[tid][parts[i].f]
Streams == 1..Len(Src(1).trs)
Bias == BMul(BMul(BInt(4194304), 2048), 2048)       \* 2^44
RECURSIVE Tails(_, _, _, _)
Tails(x, w, p, s) == IF s = 0 THEN {<<>>} ELSE {Append(c, q) : c \in Tails(x, w, p, s - 1), q \in Longer(x.trs[s], w[s], p)}
InHns(x, scale) == IF scale = Scale7 THEN x ELSE BDivBig(BSec(x), scale)
\* the fragments of a stream, one after another: their samples, and the first of each
Stream(e) ==
  LET fs == [i \in 1..Len(e.a) |-> Frag(e.a[i])]
      one(i) == [j \in 1..fs[i].n |-> [d |-> Bytes(e.a[i], fs[i], j), dr |-> InHns(fs[i].run.dur[j], V(e.scale)), shown |-> InHns(Presented(fs[i], j), V(e.scale))]]
  IN [k |-> Cat([i \in 1..Len(fs) |-> one(i)], Len(fs)), n |-> [i \in 1..Len(fs) |-> fs[i].n],
      slack |-> IF V(e.scale) = Scale7 THEN <<>> ELSE BMul(TickHns(V(e.scale)), 3)]
Fine(e) == /\ Len(e.a) > 0 /\ \A i \in 1..Len(e.a) : Shape(e.a[i], FALSE, FALSE)
           /\ \A i \in 1..Len(e.a) : LET F == Frag(e.a[i]) IN F.n > 0 /\ F.seq = BInt(i) /\ F.track = BInt(e.s + 1) /\ DataOk(e.a[i], F) /\ IndexOk(e.a[i], F, V(e.scale))
First(s, i) == 1 + SumN([q \in 1..i - 1 |-> made[s].n[q]])
CutsAt(s) == {First(s, i) : i \in 1..Len(made[s].n)}
\* the samples ls of a part stand behind the first b[s] of each stream
Same(x, ls, b) == \A s \in Streams : LET ks == ls[s] p == Picked(x.d, x.trs[s], ks) IN
   \A j \in 1..Len(ks) : LET k == b[s] + j IN k <= Len(made[s].k) /\ made[s].k[k].d = p[j].d /\ Near(made[s].k[k].dr, p[j].dr, BAdd(<<2>>, made[s].slack))
Tol == BInt(25000)
\* samples behind those of another file in the same fragment follow them at once; all others are presented when they are due
Free(ls, b, s) == LET F == {k \in CutsAt(s) : k > b[s]} IN IF F = {} THEN {} ELSE {j \in 1..Len(ls[s]) : b[s] + j >= MinN(F)}
Ref(x, ls, b) == LET S == {s \in Streams : Free(ls, b, s) # {}} IN
                 IF S = {} THEN LET s == MinN({q \in Streams : ls[q] # <<>>}) IN <<b[s] + 1, s, Shown(x.trs[s], ls[s][1])>>
                 ELSE LET s == MinN(S) j == MinN(Free(ls, b, s)) IN <<b[s] + j, s, Shown(x.trs[s], ls[s][j])>>
Timed(x, ls, b) == LET r == Ref(x, ls, b) at == made[r[2]].k[r[1]].shown IN
  \A s \in Streams : \A j \in Free(ls, b, s) : Near(BAdd(made[s].k[b[s] + j].shown, r[3]), BAdd(at, Shown(x.trs[s], ls[s][j])), Tol)
Put(x, ls, b, t) == LET r == Ref(x, ls, b) v == BAdd(t, made[r[2]].k[r[1]].shown) IN IF BLe(r[3], v) THEN BSub(v, r[3]) ELSE <<>>
Begins(x, ls, b, q, s) == Put(x, ls, b, BMinOf({Shown(x.trs[s], q[s][j]) : j \in 1..Len(q[s])}))
Ends(x, ls, b, q, s) == Put(x, ls, b, BMaxOf({BAdd(Shown(x.trs[s], q[s][j]), x.trs[s].dr[q[s][j]]) : j \in 1..Len(q[s])}))
Latest(x, ls, b, s) == Put(x, ls, b, BMaxOf({Shown(x.trs[s], ls[s][j]) : j \in 1..Len(ls[s])}))
Full(ls) == \A s \in Streams : ls[s] # <<>>
GoesOn(x, ls, b, own, ends) ==
  ends = <<>> \/ ((\A s \in Streams : BLe(ends[s], BAdd(Begins(x, ls, b, own, s), Tol)))
                 /\ (\E s \in Streams : BLe(Begins(x, ls, b, own, s), BAdd(BAdd(ends[s], Tol), IF own[s][1] = 1 THEN <<>> ELSE x.trs[s].dr[own[s][1] - 1]))))
\* where pictures are cut: at the first access point after the length asked for, or nearly
RECURSIVE Greedy(_, _, _, _)
Greedy(tr, q, at, i) ==
  IF i > Len(q) THEN {}
  ELSE IF q[i] \in tr.sync /\ (at = <<0>> \/ BLe(BAdd(at[2], long), BAdd(Shown(tr, q[i]), BInt(260000)))) THEN {i} \cup Greedy(tr, q, <<1, Shown(tr, q[i])>>, i + 1)
  ELSE Greedy(tr, q, at, i + 1)
\* up to sure the samples are the part's own; those behind fill the gap before the next file
Paced(tr, lo, sure, hi, s) ==
  LET Jumps(d) == {MaxN({1, BNat(BDivBig(long, y))}) : y \in {d, BAdd(d, <<1>>)}}
      jumps == TLCEval(Jumps(tr.dr[1]))
      all == TLCEval(UNION {Jumps(Src(i).trs[s].dr[1]) : i \in 1..Len(parts)}) IN
  \A i \in 1..Len(made[s].n) : LET f == First(s, i) z == f + made[s].n[i] - 1 IN
     (f <= hi /\ z >= lo) => (IF f >= lo /\ z < sure THEN made[s].n[i] \in jumps ELSE \E q \in all : made[s].n[i] < 2 * q + 4)
CutOk(x, ls, own, b, s) ==
  LET tr == x.trs[s] lo == b[s] + 1 hi == b[s] + Len(ls[s])
      last == own[s][Len(own[s])]
      sure == b[s] + (IF ls[s] = own[s] THEN Len(ls[s]) ELSE MaxN({i \in 1..Len(ls[s]) : ls[s][i] <= last}))
      cuts == {k \in CutsAt(s) : k >= lo /\ k <= hi}
  IN
  \/ /\ tr.kind = vide
     /\ {k \in cuts : k <= sure} = {k \in {b[s] + i : i \in Greedy(tr, ls[s], <<0>>, 1)} : k <= sure}
     /\ \A k \in cuts : ls[s][k - b[s]] \in tr.sync
  \/ (tr.kind # vide \/ tr.sync = 1..tr.n) /\ Paced(tr, lo, sure, hi, s)       \* pictures may be paced like sound if each is an access point
RECURSIVE Match(_, _, _, _)
Match(i, b, ends, late) ==
  IF i > Len(parts) THEN \A s \in Streams : b[s] = Len(made[s].k) /\ Near(BAdd(Bias, ends[s]), V(pts[s].p[Len(pts[s].p)][1]), Tol)
  ELSE LET x == Src(i) IN
       \E w \in Ways(x, parts[i]) : \E ls \in (IF i = Len(parts) THEN {TLCEval(Lists(x, w, parts[i]))} ELSE Tails(x, w, parts[i], Len(x.trs))) :
          LET own == TLCEval(Lists(x, w, parts[i])) IN
          /\ Full(own) /\ Same(x, ls, b) /\ Timed(x, ls, b) /\ GoesOn(x, ls, b, own, ends) /\ \A s \in Streams : late = <<>> \/ BLe(late[s], BAdd(Begins(x, ls, b, own, s), Tol))
          /\ \A s \in Streams : CutOk(x, ls, own, b, s)
          /\ Match(i + 1, [s \in Streams |-> b[s] + Len(ls[s])], [s \in Streams |-> Ends(x, ls, b, own, s)], [s \in Streams |-> Latest(x, ls, b, s)])
\* an interval that may hold nothing of a stream leaves open where the next file begins
Settled == \A i \in 1..Len(parts) : \A w \in Ways(Src(i), parts[i]) : Full(Lists(Src(i), w, parts[i]))
\* the points say where the fragments begin, and how long a stream is
PointsOk(s) ==
  LET p == pts[s].p n == Len(made[s].n) IN
  /\ Len(p) = n + 1 /\ pts[s].id = s - 1 /\ pts[s].video = (Src(1).trs[s].kind = vide)
  /\ \A i \in 1..n : Near(V(p[i][1]), BAdd(Bias, made[s].k[First(s, i)].shown), BAdd(<<10>>, made[s].slack))
  /\ BAdd(V(pts[s].dur), V(p[1][1])) = BAdd(V(p[n + 1][1]), Bias)
\* what decoders are told of a stream before its first fragment
Cpd(x, s) ==
  LET f == x.d t == Sub(f, TopOf(f, moov)[1], trak)[s] e == EntryOf(f, t)[1] IN
  IF e.type = avc1
  THEN LET c == SelectSeq(Boxes(f, e.in + 78, e.end), LAMBDA b : b.type = avcC)[1]
           ns == U16(f, c.in + 6) np == U16(f, c.in + 9 + ns) IN
       W2(ns) \o At(f, c.in + 8, ns) \o W2(np) \o At(f, c.in + 11 + ns, np)
  ELSE LET c == SelectSeq(Boxes(f, e.in + 28, e.end), LAMBDA b : b.type = esds)[1]
           es == Desc(f, c.in + 4) dc == Desc(f, es.in + 3) ds == Desc(f, dc.in + 13) IN
       At(f, ds.in, 2)
Told(e) == InitOk(e.out, [video |-> Src(1).trs[e.s + 1].kind = vide, track |-> BInt(e.s + 1), cpd |-> Cpd(Src(1), e.s + 1), dur |-> BSub(V(pts[e.s + 1].dur), Bias), scale |-> V(e.scale), kid |-> <<>>, pssh |-> <<>>])
Step(e) ==
  CASE e.op = "file" -> UNCHANGED <<parts, long, pts, made>>
    [] e.op = "length" -> long' = V(e.v) /\ UNCHANGED <<parts, pts, made>>
    [] e.op = "index" -> parts' = Append(parts, [f |-> e.f, from |-> V(e.from), to |-> V(e.to)]) /\ UNCHANGED <<long, pts, made>>
    [] e.op = "finish" -> UNCHANGED <<parts, long, pts, made>>
    [] e.op = "points" -> pts' = e.a /\ (Len(e.a) = Len(Src(1).trs)) = TRUE /\ UNCHANGED <<parts, long, made>>
    [] e.op = "segments" -> (e.s = Len(made) /\ Fine(e)) = TRUE /\ made' = Append(made, Stream(e)) /\ UNCHANGED <<parts, long, pts>>
    [] e.op = "ran" -> e.rc = 0 /\ UNCHANGED <<parts, long, pts, made>>
    [] e.op = "init" -> Told(e) = TRUE /\ UNCHANGED <<parts, long, pts, made>>
    [] e.op = "done" -> ((\A s \in Streams : PointsOk(s)) /\ (Settled => Match(1, [s \in Streams |-> 0], <<>>, <<>>))) = TRUE /\ UNCHANGED <<parts, long, pts, made>>
    [] OTHER -> FALSE
TInit == TraceInit /\ parts = <<>> /\ long = BInt(20000000) /\ pts = <<>> /\ made = <<>>
TNext == Advance /\ Step(Ev)
TSpec == TInit /\ [][TNext]_vars
==============================================================================
