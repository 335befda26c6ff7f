---------------------------- MODULE FragmentTrace ----------------------------
EXTENDS TraceBase, Fragment
\* of each trace, the files it is about
FileOf == [t \in 1..Len(Traces) |-> LET F == {k \in 1..Len(Traces[t].ev) : Traces[t].ev[k].op = "file"} IN
             [n \in {Traces[t].ev[k].f : k \in F} |-> LET e == Traces[t].ev[CHOOSE k \in F : Traces[t].ev[k].f = n] IN [d |-> e.d, trs |-> Tracks(e.d)]]]
V(p) == BParts(p)
VARIABLE idx         \* what has been indexed: <<>> or [f, length]
vars == <<tid, l, idx>>
Tr(n, s) == FileOf[tid][n].trs[s + 1]
Src(n) == FileOf[tid][n].d
\* a fragment made of samples
Made2(e, a, base) ==
  /\ Shape(e.out, e.key # <<>>, a = <<>>)
  /\ LET F == Frag(e.out) IN
     /\ F.seq = BInt(e.seq) /\ F.track = BInt(e.track)
     /\ (e.video => F.first # <<>> /\ Flag(F.run.flags, 2048))
     /\ (e.key # <<>> => SecretOk(e.out, F))
     /\ Holds(e.out, F, a, V(e.scale), e.key)
     /\ (e.given => (a # <<>> => TimedFrom(F, a, base, V(e.scale))))
     /\ IndexOk(e.out, F, V(e.scale))
ChunkA(e) == LET tr == Tr(e.f, e.s) ks == Carry(tr, V(e.from), V(e.to)) IN Picked(Src(e.f), tr, ks)
\* what comes from the second file goes on where the first ends
CrossA(e) ==
  ChunkA(e) \o LET tr == Tr(e.g, e.s) p == Picked(Src(e.g), tr, Carry(tr, V(e.from2), V(e.to2))) IN
                [j \in 1..Len(p) |-> [p[j] EXCEPT !.due = BSub(BAdd(@, V(e.to)), V(e.from2))]]
FragA(e) == [j \in 1..Len(e.a) |-> [d |-> e.a[j].d, dr |-> V(e.a[j].dur), due |-> V(e.a[j].comp)]]

\* what a reader says of a run of fragments
Parts(d) == SelectSeq(Top(d), LAMBDA x : x.type = moof)
Signed(w) == IF BLt(w, Half) THEN w ELSE BSub(w, BMul(Half, 2))
Bias == BMul(BMul(BInt(4194304), 2048), 2048)       \* 2^44
\* after what may say which kind of information it is
Opt(d, b) == b.in + (IF Flag(Flags(d, b), 1) THEN 12 ELSE 4)
Read1(d, m, r, rd) ==
  LET tf == The(d, m, traf)
      h == The(d, tf, tfhd)
      hf == Flags(d, h)
      u == Run(d, The(d, tf, trun))
      body == SelectSeq(Top(d), LAMBDA x : x.type = mdat /\ x.at > m.at)[1]
      p8 == h.in + 8 + (IF Flag(hf, 1) THEN 8 ELSE 0) + (IF Flag(hf, 2) THEN 4 ELSE 0)
      p16 == p8 + (IF Flag(hf, 8) THEN 4 ELSE 0)
  IN /\ r.n = u.n
     /\ r.tfdt = Has1(d, tf, tfdt)
     /\ (r.tfdt => LET b == The(d, tf, tfdt) IN V(r.base) = (IF Ver(d, b) = 1 THEN U64(d, b.in + 4) ELSE U32(d, b.in + 4)))
     /\ V(r.at) = BInt(body.in)
     /\ V(r.data) = (IF Flag(u.flags, 1) THEN BAdd(Moved(BInt(m.at), u.off), <<>>) ELSE BInt(body.in))
     /\ \A j \in 1..u.n :
          /\ V(r.k[j][1]) = (IF u.size # <<>> THEN u.size[j] ELSE IF Flag(hf, 16) THEN U32(d, p16) ELSE <<>>)
          /\ V(r.k[j][2]) = (IF u.dur # <<>> THEN u.dur[j] ELSE IF Flag(hf, 8) THEN U32(d, p8) ELSE <<>>)
          /\ V(r.k[j][3]) = (IF u.co = <<>> THEN Bias ELSE IF u.ver = 0 THEN BAdd(Bias, u.co[j]) ELSE Moved(Bias, u.co[j]))
          /\ V(r.k[j][4]) = (IF u.co = <<>> THEN Bias ELSE Moved(Bias, u.co[j]))
     /\ LET us == SelectSeq(Boxes(d, tf.in, tf.end), LAMBDA x : x.type = Tag(117, 117, 105, 100))
            is(x, id) == SubSeq(d, x.in + 1, x.in + 16) = id
            fx == SelectSeq(us, LAMBDA x : is(x, <<109,29,155,5,66,213,68,230,128,226,20,29,175,247,87,178>>))
            ff == SelectSeq(us, LAMBDA x : is(x, <<212,128,126,242,202,57,70,149,142,84,38,203,158,70,167,159>>))
            pair(x, p) == IF U8(d, x.in + 16) = 1 THEN <<U64(d, p), U64(d, p + 8)>> ELSE <<U32(d, p), U32(d, p + 4)>>
            w(x) == IF U8(d, x.in + 16) = 1 THEN 16 ELSE 8
        IN /\ Has(r, "tfxd") = (fx # <<>>) /\ (fx # <<>> => V(r.tfxd) = pair(fx[1], fx[1].in + 20)[1])
           /\ IF ff = <<>> THEN r.live = <<>>
              ELSE LET x == ff[1] IN /\ Len(r.live) = U8(d, x.in + 20)
                                     /\ \A i \in 1..Len(r.live) : LET q == pair(x, x.in + 21 + w(x) * (i - 1)) IN V(r.live[i][1]) = q[1] /\ V(r.live[i][2]) = q[2]
     /\ r.senc = Has1(d, tf, senc)
     /\ (r.senc => LET s == Secret(d, [traf |-> <<0, 0, 0, 0, 0, The(d, tf, senc)>>]) IN
           /\ Len(r.sencs) = Len(s)
           /\ \A j \in 1..Len(s) : r.sencs[j][1] = s[j].iv /\ Len(r.sencs[j][2]) = Len(s[j].subs)
                /\ \A i \in 1..Len(s[j].subs) : r.sencs[j][2][i][1] = s[j].subs[i].clear /\ V(r.sencs[j][2][i][2]) = BInt(s[j].subs[i].prot))
     /\ LET off(b, i) == IF Ver(d, b) = 0 THEN U32(d, Opt(d, b) + 4 * i) ELSE U64(d, Opt(d, b) + 8 * i - 4) IN
        IF Has1(d, tf, saio) THEN LET b == The(d, tf, saio) IN Len(r.saio) = N32(d, Opt(d, b)) /\ \A i \in 1..Len(r.saio) : V(r.saio[i]) = off(b, i) ELSE r.saio = <<>>
     /\ IF Has1(d, tf, saiz) /\ U8(d, Opt(d, The(d, tf, saiz))) = 0
        THEN LET b == The(d, tf, saiz) q == Opt(d, b) IN Len(r.saiz) = N32(d, q + 1) /\ \A i \in 1..Len(r.saiz) : r.saiz[i] = U8(d, q + 4 + i) ELSE r.saiz = <<>>
ReadOk(e) == LET p == Parts(e.d) IN Len(e.a) = Len(p) /\ \A i \in 1..Len(p) : Read1(e.d, p[i], e.a[i], 0)

\* HTTP live streaming: padded to whole blocks, chained from the number of the segment
HlsOk(e) ==
  LET n == Len(e.d) pad == 16 - (n % 16)
      plain(i) == IF i <= n THEN e.d[i] ELSE pad
      iv(i) == IF i = 16 THEN e.seq % 256 ELSE IF i = 15 THEN (e.seq \div 256) % 256 ELSE IF i = 14 THEN (e.seq \div 65536) % 256 ELSE IF i = 13 THEN e.seq \div 16777216 ELSE 0
      before(i) == IF i <= 16 THEN iv(i) ELSE e.out[i - 16]
  IN /\ e.r = 0 /\ e.size = n + pad /\ e.said = n + pad /\ Len(e.out) = n + pad
     /\ \A i \in 1..n + pad : e.out[i] = (plain(i) + e.key[((i - 1) % 16) + 1] + 5 * before(i) + ((i - 1) % 16)) % 256
Step(e) ==
  CASE e.op = "file" -> UNCHANGED idx
    [] e.op = "chunk" -> Made2(e, ChunkA(e), V(e.base)) = TRUE /\ UNCHANGED idx
    [] e.op = "cross" -> Made2(e, CrossA(e), V(e.base)) = TRUE /\ UNCHANGED idx
    [] e.op = "frag" -> Made2(e, FragA(e), IF e.a = <<>> THEN V(e.base) ELSE BSub(BAdd(V(e.base), V(e.a[1].comp)), V(e.a[1].dec))) = TRUE /\ UNCHANGED idx
    [] e.op = "init" -> InitOk(e.out, [e EXCEPT !.scale = V(@), !.track = BInt(@), !.dur = V(@)]) = TRUE /\ UNCHANGED idx
    [] e.op = "read" -> ReadOk(e) = TRUE /\ UNCHANGED idx
    [] e.op = "hls" -> HlsOk(e) = TRUE /\ UNCHANGED idx
    [] OTHER -> FALSE
TInit == TraceInit /\ idx = <<>>
TNext == Advance /\ Step(Ev)
TSpec == TInit /\ [][TNext]_vars
==============================================================================
