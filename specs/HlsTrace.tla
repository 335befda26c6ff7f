------------------------------- MODULE HlsTrace -------------------------------
(* From files to HTTP Live Streaming: that the segments of the playlists hold   *)
(* every sample of the files once, when it is due, in one transport stream that *)
(* can be entered at each of them.                                              *)
EXTENDS TraceBase, Parts
S == INSTANCE Ts
V(p) == BParts(p)
FileOf == [t \in 1..Len(Traces) |-> LET F == {k \in 1..Len(Traces[t].ev) : Traces[t].ev[k].op = "file"} IN
             [n \in {Traces[t].ev[k].f : k \in F} |-> LET e == Traces[t].ev[CHOOSE k \in F : Traces[t].ev[k].f = n] IN [d |-> e.d, trs |-> Tracks(e.d)]]]
VARIABLE parts, long, segs, cc, got     \* the files; the length of a segment; the segments; the next counter of every PID; the units of each stream
vars == <<tid, l, parts, long, segs, cc, got>>
Src(i) == FileOf[tid][parts[i].f]
Streams == 1..Len(Src(1).trs)
Pic == Visual(Src(1).trs)
TablePid == 4096
Pid(s) == 255 + s
\* ------------------------------------------------------------------ a segment
\* the tables come first, and are the same in every segment
TablesOk(p) ==
  /\ Len(p) >= 2
  /\ S!OneUnit(<<p[1]>>, 0, Len(segs) % 16) /\ S!OneUnit(<<p[2]>>, TablePid, Len(segs) % 16)
  /\ LET a == S!Section(p[1].data) b == S!Section(p[2].data) IN
     /\ S!GoodSection(a, 0) /\ Len(a) >= 16 /\ S!Programs(a) = <<<<1, TablePid>>>>
     /\ S!GoodSection(b, 2) /\ Len(b) >= 16
     /\ LET m == S!Map(b) IN m.program = 1 /\ m.clock = Pid(Pic)
                             /\ m.streams = [s \in Streams |-> <<Pid(s), IF Src(1).trs[s].kind = vide THEN 27 ELSE 15>>]
Of(p, pid) == SelectSeq([k \in DOMAIN p |-> k], LAMBDA k : p[k].pid = pid)
\* the packets of a stream go on from those of the segment before
CountsOn(p, pid) == LET q == Of(p, pid) IN \A j \in DOMAIN q : p[q[j]].pay /\ p[q[j]].cc = (cc[pid] + j - 1) % 16
Units(p, pid) ==
  LET q == SelectSeq(Of(p, pid), LAMBDA k : p[k].data # <<>>)
      b == SelectSeq([j \in DOMAIN q |-> j], LAMBDA j : p[q[j]].start)
  IN [u \in DOMAIN b |-> LET z == IF u = Len(b) THEN Len(q) ELSE b[u + 1] - 1
                             of == [j \in 1..(z - b[u] + 1) |-> p[q[b[u] + j - 1]]]
                         IN [x |-> S!Pes(S!UnitData(of)), random |-> of[1].random, clock |-> of[1].clock, seg |-> Len(segs) + 1,
                             quiet |-> \A j \in DOMAIN of : j > 1 => (~of[j].random /\ of[j].clock = <<>>)]]
\* what fills the first packet, where a wrong vector of the cipher would show
Filled(q) == \A i \in 7..5 + q[5] : q[i] = q[7]
SegmentOk(p) ==
  /\ \A k \in DOMAIN p : ~p[k].bad
  /\ TablesOk(p)
  /\ \A k \in DOMAIN p : k > 2 => p[k].pid \in {Pid(s) : s \in Streams}
  /\ \A s \in Streams : CountsOn(p, Pid(s))
  /\ \A s \in Streams : LET q == SelectSeq(Of(p, Pid(s)), LAMBDA k : p[k].data # <<>>) IN q # <<>> => p[q[1]].start
  /\ \A s \in Streams : \A k \in DOMAIN p : (p[k].pid = Pid(s) /\ p[k].data = <<>>) => ~p[k].start
Segment(e) ==
  LET p == [k \in DOMAIN e.p |-> S!Packet(e.p[k])] IN
  /\ (SegmentOk(p) /\ Filled(e.p[1])) = TRUE
  /\ segs' = Append(segs, [at |-> V(e.at), dur |-> V(e.dur)])
  /\ cc' = [x \in DOMAIN cc |-> (cc[x] + Len(Of(p, x))) % 16]
  /\ got' = [s \in Streams |-> got[s] \o Units(p, Pid(s))]
  /\ UNCHANGED <<parts, long>>
\* ------------------------------------------------------------------ what is in the units
\* a sample of pictures: each unit with its length before it
RECURSIVE Nals(_)
Nals(d) == IF d = <<>> THEN <<>> ELSE LET n == N32(d, 0) IN <<SubSeq(d, 5, 4 + n)>> \o Nals(SubSeq(d, 5 + n, Len(d)))
Sets(x, s) == LET f == x.d t == Sub(f, TopOf(f, moov)[1], trak)[s] e == EntryOf(f, t)[1]
                  c == SelectSeq(Boxes(f, e.in + 78, e.end), LAMBDA b : b.type = avcC)[1] ns == U16(f, c.in + 6)
              IN <<At(f, c.in + 8, ns), At(f, c.in + 11 + ns, U16(f, c.in + 9 + ns))>>
Told(x, s) == LET f == x.d t == Sub(f, TopOf(f, moov)[1], trak)[s] e == EntryOf(f, t)[1]
                  c == SelectSeq(Boxes(f, e.in + 28, e.end), LAMBDA b : b.type = esds)[1]
                  es == Desc(f, c.in + 4) dc == Desc(f, es.in + 3) ds == Desc(f, dc.in + 13) IN At(f, ds.in, 2)
UnitBody(x, s, j) ==
  LET tr == x.trs[s] d == SubSeq(x.d, BNat(tr.off[j]) + 1, BNat(tr.off[j]) + BNat(tr.size[j])) IN
  IF tr.kind = vide THEN LET q == Sets(x, s) IN S!Picture(j \in tr.sync, q[1], q[2], Nals(d))
  ELSE LET c == Told(x, s) IN S!Adts(c[1] \div 8, S!Rates[(c[1] % 8) * 2 + c[2] \div 128 + 1], (c[2] \div 8) % 16, Len(d)) \o d
Late == BInt(2000000)           \* everything is presented that much later, so that pictures can be decoded before
Access(x, s, j) == x.trs[s].kind = vide /\ j \in x.trs[s].sync
Same(x, ls, b) == \A s \in Streams : \A i \in 1..Len(ls[s]) :
  /\ b[s] + i <= Len(got[s])
  /\ LET u == got[s][b[s] + i] j == ls[s][i] IN
     /\ ~u.x.bad /\ u.quiet /\ u.x.body = UnitBody(x, s, j)
     /\ IF x.trs[s].kind = vide THEN u.x.id \in 224..239 /\ u.x.dts # <<>> /\ u.random = Access(x, s, j) /\ (u.random => u.clock # <<>>)
        ELSE u.x.id \in 192..223
\* the segments of a part begin with those pictures, given by their place
Begins(b, n) == SelectSeq([i \in 1..n |-> i], LAMBDA i : i = 1 \/ got[Pic][b[Pic] + i].seg # got[Pic][b[Pic] + i - 1].seg)
First(x, ls, b, k) == ls[Pic][MinN({i \in 1..Len(ls[Pic]) : got[Pic][b[Pic] + i].seg = k})]
\* every sample is presented as long after the first picture of its segment as in the file, and that when the playlist says
Timed(x, ls, b) == \A s \in Streams : \A i \in 1..Len(ls[s]) :
  LET u == got[s][b[s] + i] j == ls[s][i] IN
  /\ \E k \in 1..Len(ls[Pic]) : got[Pic][b[Pic] + k].seg = u.seg
  /\ S!Tells(u.x.pts, <<BAdd(BAdd(segs[u.seg].at, Late), Shown(x.trs[s], j)), Shown(x.trs[Pic], First(x, ls, b, u.seg))>>)
\* pictures are decoded as far apart as in the file, from when the segment begins on, and not after they are presented
Decoded(x, ls, b) == LET s == Pic tr == x.trs[s] IN \A i \in 1..Len(ls[s]) :
  LET u == got[s][b[s] + i] j == ls[s][i] f == First(x, ls, b, u.seg)
      t == <<BAdd(segs[u.seg].at, tr.dec[j]), tr.dec[f]>>
  IN S!Tells(u.x.dts, t) /\ (u.clock # <<>> => u.clock[2] < 300 /\ S!Tells(<<u.clock[1]>>, t))
RECURSIVE Greedy(_, _, _, _)
Greedy(tr, q, at, i) ==
  IF i > Len(q) THEN {}
  ELSE IF q[i] \in tr.sync /\ (at = <<0>> \/ BLe(BAdd(at[2], long), BAdd(Shown(tr, q[i]), BInt(660000)))) THEN {i} \cup Greedy(tr, q, <<1, Shown(tr, q[i])>>, i + 1)
  ELSE Greedy(tr, q, at, i + 1)
Counts(b, q, k) == LET z == IF k = Len(q) THEN 0 ELSE q[k + 1] IN z - q[k]
CutOk(x, ls, own, b) ==
  LET tr == x.trs[Pic] q == Begins(b, Len(ls)) IN
  \/ {ls[q[i]] : i \in DOMAIN q} = {own[i] : i \in Greedy(tr, own, <<0>>, 1)}
  \/ tr.sync = 1..tr.n /\ LET d == tr.dr[1] IN       \* pictures may be paced like sound if each is an access point
       \E jump \in {MaxN({1, BNat(BDivBig(long, y))}) : y \in {d, BAdd(d, <<1>>)}} :
          /\ \A i \in 1..Len(q) - 1 : Counts(b, q, i) = jump \/ (i = 1 /\ b[Pic] > 0 /\ Counts(b, q, i) < jump)   \* may be paced with the end of the file before
          /\ Len(ls) + 1 - q[Len(q)] < 2 * jump + 4
\* the playlist: a segment is as long as until the next; the last until all pictures were shown
Tol == BInt(25000)
Gap(x, own, ls, b, k) == BSub(BMaxOf({BAdd(Shown(x.trs[Pic], own[Pic][i]), x.trs[Pic].dr[own[Pic][i]]) : i \in 1..Len(own[Pic])}), Shown(x.trs[Pic], First(x, ls, b, k)))
PacedOk(x, ls, b) ==
  LET q == Begins(b, Len(ls[Pic])) ks == [i \in DOMAIN q |-> got[Pic][b[Pic] + q[i]].seg] IN
  \A i \in DOMAIN ks : /\ ks[i] = ks[1] + i - 1
                       /\ (i > 1 => Near(BAdd(segs[ks[i]].at, Shown(x.trs[Pic], ls[Pic][q[1]])), BAdd(segs[ks[1]].at, Shown(x.trs[Pic], ls[Pic][q[i]])), Tol))
ListOk == \A k \in 1..(Len(segs) - 1) : Near(BAdd(segs[k].at, segs[k].dur), segs[k + 1].at, BInt(20))
Ended(x, own, ls, b) == BAdd(segs[got[Pic][b[Pic] + 1].seg].at, Gap(x, own, ls, b, got[Pic][b[Pic] + 1].seg))
\* the sound of a part is in its segments; what is heard when there is nothing to see any more may be left out,
\* and what is heard while there is still something to see may be there
Rest(pic, b, s) ==
  LET z == got[Pic][b[Pic] + Len(pic)].seg IN Cardinality({u \in DOMAIN got[s] : u > b[s] /\ got[s][u].seg <= z})
Heard(x, w, own, pic, b, p) ==
  LET end == BMaxOf({BAdd(Shown(x.trs[Pic], j), x.trs[Pic].dr[j]) : j \in {own[Pic][i] : i \in 1..Len(own[Pic])}})
      z == got[Pic][b[Pic] + Len(pic)].seg
      next == BAdd(BAdd(Shown(x.trs[Pic], pic[MinN({i \in 1..Len(pic) : got[Pic][b[Pic] + i].seg = z})]), segs[z].dur), Tol)
  IN
  [s \in Streams |-> IF s = Pic THEN pic
                     ELSE LET all == Taken(x.trs[s], w[s], [p EXCEPT !.to = <<>>]) n == Rest(pic, b, s)
                              C(q, t) == Len(SelectSeq(q, LAMBDA j : BLt(Shown(x.trs[s], j), t)))
                          IN IF C(own[s], end) <= n /\ n <= MaxN({Len(own[s]), C(all, next)}) THEN SubSeq(all, 1, n) ELSE <<0>>]
RECURSIVE Match(_, _, _)
Match(i, b, end) ==
  IF i > Len(parts) THEN \A s \in Streams : b[s] = Len(got[s]) /\ (s = Pic => Near(end[1], BAdd(segs[Len(segs)].at, segs[Len(segs)].dur), Tol))
  ELSE LET x == Src(i) IN
       \E w \in Ways(x, parts[i]) : LET own == TLCEval(Lists(x, w, parts[i])) IN
          \E pic \in (IF i = Len(parts) THEN {own[Pic]} ELSE Longer(x.trs[Pic], w[Pic], parts[i])) :
             /\ own[Pic] # <<>> /\ b[Pic] + Len(pic) <= Len(got[Pic])
             /\ LET ls == TLCEval(Heard(x, w, own, pic, b, parts[i])) IN
                /\ \A s \in Streams : ls[s] # <<0>>
                /\ Same(x, ls, b) /\ Timed(x, ls, b) /\ Decoded(x, ls, b) /\ CutOk(x, pic, own[Pic], b) /\ PacedOk(x, ls, b)
                /\ (end = <<>> \/ BLe(end[1], BAdd(segs[got[Pic][b[Pic] + 1].seg].at, Tol)))
                /\ Match(i + 1, TLCEval([s \in Streams |-> b[s] + Len(ls[s])]), <<TLCEval(Ended(x, own, ls, b))>>)
Step(e) ==
  CASE e.op = "file" -> UNCHANGED <<parts, long, segs, cc, got>>
    [] e.op = "length" -> long' = V(e.v) /\ UNCHANGED <<parts, segs, cc, got>>
    [] e.op = "index" -> parts' = Append(parts, [f |-> e.f, from |-> V(e.from), to |-> V(e.to)]) /\ UNCHANGED <<long, segs, cc, got>>
    [] e.op = "ran" -> e.rc = 0 /\ got' = [s \in Streams |-> <<>>] /\ cc' = [x \in {Pid(s) : s \in Streams} |-> 0] /\ UNCHANGED <<parts, long, segs>>
    [] e.op = "segment" -> Segment(e)
    [] e.op = "done" -> (ListOk /\ Match(1, [s \in Streams |-> 0], <<>>)) = TRUE /\ UNCHANGED <<parts, long, segs, cc, got>>
    [] OTHER -> FALSE
TInit == TraceInit /\ parts = <<>> /\ long = BInt(100000000) /\ segs = <<>> /\ cc = <<>> /\ got = <<>>
TNext == Advance /\ Step(Ev)
TSpec == TInit /\ [][TNext]_vars
===============================================================================
