------------------------------- MODULE Fragment -------------------------------
(* Media fragments: what their bytes mean, and which samples of a file belong  *)
(* to an interval. Tracks are records of module Mp4; times are in units of     *)
(* 100 ns or in ticks of the fragment, and may be large (module Big).          *)
EXTENDS Mp4Read, Mp4Write
moof == Tag(109,111,111,102) mfhd == Tag(109,102,104,100) traf == Tag(116,114,97,102) tfhd == Tag(116,102,104,100)
tfdt == Tag(116,102,100,116) trun == Tag(116,114,117,110) styp == Tag(115,116,121,112) sidx == Tag(115,105,100,120)
saiz == Tag(115,97,105,122) saio == Tag(115,97,105,111) senc == Tag(115,101,110,99)
\* boxes that follow one another fill the space between two positions
RECURSIVE Flat(_, _, _), SumTo(_, _)
Flat(f, lo, hi) == lo = hi \/ (lo + 8 <= hi /\ f[lo + 1] = 0 /\ N32(f, lo) >= 8 /\ lo + N32(f, lo) <= hi /\ Flat(f, lo + N32(f, lo), hi))
Types(f, b) == LET s == Boxes(f, b.in, b.end) IN [i \in 1..Len(s) |-> s[i].type]
Flag(x, b) == (x \div b) % 2 = 1
Flags(f, b) == N32(f, b.in) % 16777216
Ver(f, b) == U8(f, b.in)
SumTo(s, n) == IF n = 0 THEN <<>> ELSE BAdd(SumTo(s, n - 1), s[n])
\* what is in the box of a track; one without samples need not say when it begins
Traf(f, r) == LET b == Boxes(f, r.in, r.end) IN IF Len(b) > 1 /\ b[2].type = trun THEN <<b[1], b[1]>> \o SubSeq(b, 2, Len(b)) ELSE b
\* a fragment written whole: its kind, its index, its header, its data
Shape(f, secret, none) ==
  /\ Len(f) > 0 /\ Flat(f, 0, Len(f))
  /\ LET t == Top(f) IN [i \in 1..Len(t) |-> t[i].type] = <<styp, sidx, moof, mdat>>
  /\ LET m == Top(f)[3] IN
     /\ Flat(f, m.in, m.end) /\ Types(f, m) = <<mfhd, traf>> /\ N32(f, m.in) = 16
     /\ LET r == Boxes(f, m.in, m.end)[2] IN
        /\ Flat(f, r.in, r.end) /\ Types(f, r) = (IF none /\ ~Has1(f, r, tfdt) THEN <<tfhd, trun>> ELSE <<tfhd, tfdt, trun>>) \o (IF secret THEN <<saiz, saio, senc>> ELSE <<>>)
        /\ LET b == Traf(f, r) IN
           /\ b[1].end = b[1].in + 8 /\ N32(f, b[1].in) = 0
           /\ (~none => Ver(f, b[2]) = 1 /\ b[2].end = b[2].in + 12)
           /\ LET fl == Flags(f, b[3]) w == Cardinality({x \in {256, 512, 1024, 2048} : Flag(fl, x)}) IN
              /\ Flag(fl, 1) /\ Flag(fl, 256) /\ Flag(fl, 512) /\ f[b[3].in + 5] = 0 /\ f[b[3].in + 6] = 0
              /\ b[3].end = b[3].in + 12 + (IF Flag(fl, 4) THEN 4 ELSE 0) + 4 * w * N32(f, b[3].in + 4)
\* the run of samples at a box: [size, dur, co] in ticks; co is the word as it stands
Run(f, b) ==
  LET fl == Flags(f, b)
      n == N32(f, b.in + 4)
      p0 == b.in + 8 + (IF Flag(fl, 1) THEN 4 ELSE 0) + (IF Flag(fl, 4) THEN 4 ELSE 0)
      fs == SelectSeq(<<256, 512, 1024, 2048>>, LAMBDA x : Flag(fl, x))
      at(i, x) == p0 + 4 * (Len(fs) * (i - 1) + (CHOOSE j \in 1..Len(fs) : fs[j] = x) - 1)
      col(x) == IF Flag(fl, x) THEN [i \in 1..n |-> U32(f, at(i, x))] ELSE <<>>
  IN [n |-> n, ver |-> Ver(f, b), flags |-> fl, off |-> IF Flag(fl, 1) THEN U32(f, b.in + 8) ELSE <<>>, dur |-> col(256), size |-> col(512), sf |-> col(1024), co |-> col(2048)]
Half == BMul(BInt(32768), 65536)
\* a time moved by a signed word
Moved(x, w) == IF BLt(w, Half) THEN BAdd(x, w) ELSE BSub(x, BSub(BMul(Half, 2), w))
Frag(f) ==
  LET m == Top(f)[3]
      r == Boxes(f, m.in, m.end)[2]
      b == Traf(f, r)
      u == Run(f, b[3])
      base == IF b[2].type = tfdt THEN U64(f, b[2].in + 4) ELSE <<>>
  IN [seq |-> U32(f, m.in + 12), track |-> U32(f, b[1].in + 4), base |-> base, run |-> u, n |-> u.n, moof |-> m, mdat |-> Top(f)[4], traf |-> b,
      first |-> IF Flag(u.flags, 4) THEN U32(f, b[3].in + 12) ELSE <<>>]
\* the bytes of its samples follow one another from where the data begins
Begin(F, j) == F.mdat.in + BNat(SumTo(F.run.size, j - 1))
DataOk(f, F) == F.run.off = BInt(F.mdat.in - F.moof.at) /\ BInt(F.mdat.end - F.mdat.in) = SumTo(F.run.size, F.n)
Bytes(f, F, j) == SubSeq(f, Begin(F, j) + 1, Begin(F, j) + BNat(F.run.size[j]))
\* when its samples are presented, in ticks
Presented(F, j) == LET d == BAdd(F.base, SumTo(F.run.dur, j - 1)) IN IF F.run.co = <<>> THEN d ELSE Moved(d, F.run.co[j])
\* the index before it: one piece, the whole of it
IndexOk(f, F, scale) ==
  LET x == Top(f)[2] v == Ver(f, x) q == x.in + (IF v = 1 THEN 28 ELSE 20) IN
  /\ x.end = q + 16 - 0 /\ U32(f, x.in + 4) = F.track /\ U32(f, x.in + 8) = scale
  /\ (IF v = 1 THEN U64(f, x.in + 12) ELSE U32(f, x.in + 12)) = (IF F.n = 0 THEN F.base ELSE Presented(F, 1))
  /\ (IF v = 1 THEN U64(f, x.in + 20) ELSE U32(f, x.in + 16)) = <<>>
  /\ U16(f, q) = 0 /\ U16(f, q + 2) = 1
  /\ U32(f, q + 4) = BInt(Len(f) - F.moof.at)
  /\ U32(f, q + 8) = SumTo(F.run.dur, F.n)

\* ------------------------------------------------------------------ encryption (with the stand-in cipher)
Secret(f, F) ==
  LET b == F.traf[6]
      fl == Flags(f, b)
      n == N32(f, b.in + 4)
      RECURSIVE item(_, _)
      item(p, k) == IF k = 0 THEN <<>>
                    ELSE LET c == IF Flag(fl, 2) THEN U16(f, p + 8) ELSE 0
                             subs == [i \in 1..c |-> [clear |-> U16(f, p + 10 + 6 * (i - 1)), prot |-> N32(f, p + 12 + 6 * (i - 1))]]
                             z == 8 + (IF Flag(fl, 2) THEN 2 + 6 * c ELSE 0)
                         IN <<[at |-> p, len |-> z, iv |-> SubSeq(f, p + 1, p + 8), subs |-> subs]>> \o item(p + z, k - 1)
  IN item(b.in + 8, n)
\* a sample as it was before: what is protected is hidden by the key, the counter and the place
Clear(d, key, x) ==
  LET RECURSIVE run(_, _, _)
      run(i, p, k) ==                     \* sub-samples from i on, at place p; k bytes have been protected before
        IF i > Len(x.subs) THEN SubSeq(d, p + 1, Len(d))
        ELSE LET s == x.subs[i] q == p + s.clear IN
             SubSeq(d, p + 1, q)
             \o [j \in 1..s.prot |-> LET m == k + j - 1 c == m \div 16 o == m % 16
                                         ctr == IF o < 8 THEN x.iv[o + 1] ELSE IF o = 15 THEN c % 256 ELSE IF o = 14 THEN (c \div 256) % 256 ELSE 0
                                     IN (d[q + j] + 4096 - key[o + 1] - 5 * ctr - o) % 256]
             \o run(i + 1, q + s.prot, k + s.prot)
  IN run(1, 0, 0)
SecretOk(f, F) ==
  LET s == Secret(f, F) z == F.traf[4] o == F.traf[5] b == F.traf[6] IN
  /\ Len(s) = F.n /\ b.end = (IF F.n = 0 THEN b.in + 8 ELSE s[F.n].at + s[F.n].len)
  /\ \A j \in 1..F.n : s[j].subs # <<>> => SumN([i \in 1..Len(s[j].subs) |-> s[j].subs[i].clear + s[j].subs[i].prot]) = BNat(F.run.size[j])
  /\ \A j \in 1..F.n : BLt(BInt(112), F.run.size[j]) => \E i \in 1..Len(s[j].subs) : s[j].subs[i].prot > 0       \* long ones are hidden
  /\ \A i, j \in 1..F.n : i # j => s[i].iv # s[j].iv                 \* no part of the key stream is used twice
  /\ Flags(f, z) = 0 /\ z.end = z.in + 9 + (IF U8(f, z.in + 4) = 0 THEN F.n ELSE 0) /\ N32(f, z.in + 5) = F.n
  /\ \A j \in 1..F.n : s[j].len = (IF U8(f, z.in + 4) = 0 THEN U8(f, z.in + 8 + j) ELSE U8(f, z.in + 4))
  /\ Flags(f, o) = 0 /\ N32(f, o.in + 4) = 1 /\ Ver(f, o) = 0 /\ o.end = o.in + 12 /\ N32(f, o.in + 8) = b.in + 8 - F.moof.at

\* ------------------------------------------------------------------ samples of an interval
\* the samples due from one time to another, in the order they are stored
Carry(tr, from, to) == SelectSeq([k \in 1..tr.n |-> k], LAMBDA k : BLe(from, Shown(tr, k)) /\ BLt(Shown(tr, k), to))
\* a fragment f of the samples a: each [size, d, dr, comp] with when it is due; presented from a base on
Ticks(x, sc) == BDivBig(Scaled(x, sc), Scale7)
Holds(f, F, a, scale, key) ==
  /\ F.n = Len(a) /\ DataOk(f, F)
  /\ LET s == IF key = <<>> THEN <<>> ELSE Secret(f, F) IN
     \A j \in 1..F.n : /\ F.run.size[j] = BInt(Len(a[j].d)) /\ (IF key = <<>> THEN Bytes(f, F, j) ELSE Clear(Bytes(f, F, j), key, s[j])) = a[j].d
                       /\ Near(F.run.dur[j], Ticks(a[j].dr, scale), <<1>>)
TimedFrom(F, a, base, scale) ==
  \A j \in 1..F.n : Near(BAdd(BSec(Presented(F, j)), Scaled(a[1].due, scale)), Scaled(BAdd(base, a[j].due), scale), BSec(BInt(j + 3)))
\* the samples of a track as such
Picked(file, tr, ks) == [j \in 1..Len(ks) |-> [d |-> SubSeq(file, BNat(tr.off[ks[j]]) + 1, BNat(tr.off[ks[j]]) + BNat(tr.size[ks[j]])), dr |-> tr.dr[ks[j]], due |-> Shown(tr, ks[j])]]

\* ------------------------------------------------------------------ initialization
mvex == Tag(109,118,101,120) mehd == Tag(109,101,104,100) trex == Tag(116,114,101,120) encv == Tag(101,110,99,118) enca == Tag(101,110,99,97)
sinf == Tag(115,105,110,102) frma == Tag(102,114,109,97) schm == Tag(115,99,104,109) schi == Tag(115,99,104,105) tenc == Tag(116,101,110,99) cenc == Tag(99,101,110,99)
Empty(f, b, s) == b.in + s + 4 = b.end /\ N32(f, b.in + s) = 0
\* how samples are protected: what they are without, by what scheme, with which key
HiddenOk(f, b, was, kid) ==
  /\ Flat(f, b.in, b.end) /\ Types(f, b) = <<frma, schm, schi>>
  /\ LET x == Boxes(f, b.in, b.end) IN
     /\ x[1].end = x[1].in + 4 /\ Type(f, x[1].in - 4) = was
     /\ x[2].end = x[2].in + 12 /\ N32(f, x[2].in) = 0 /\ Type(f, x[2].in) = cenc /\ N32(f, x[2].in + 8) = 65536
     /\ Flat(f, x[3].in, x[3].end) /\ Types(f, x[3]) = <<tenc>>
     /\ LET y == Boxes(f, x[3].in, x[3].end)[1] IN SubSeq(f, y.in + 1, y.end) = Zeros(6) \o <<1, 8>> \o kid
EntryOk(f, t, e) ==
  LET n == EntryOf(f, t) x == n[1]
      hidden == e.kid # <<>>
      p == x.in + (IF e.video THEN 78 ELSE 28)
      b0 == Boxes(f, p, x.end)
      b == SelectSeq(b0, LAMBDA y : y.type # sinf) \o SelectSeq(b0, LAMBDA y : y.type = sinf)
  IN /\ Len(n) = (IF hidden THEN 2 ELSE 1)            \* what is protected may also come in clear
     /\ hidden => n[2].type = (IF e.video THEN avc1 ELSE mp4a) /\ SubSeq(f, n[2].in + 1, p + n[2].in - x.in) = SubSeq(f, x.in + 1, p)
     /\ x.type = (IF e.video THEN IF hidden THEN encv ELSE avc1 ELSE IF hidden THEN enca ELSE mp4a)
     /\ At(f, x.in, 8) = <<0, 0, 0, 0, 0, 0, 0, 1>> /\ p < x.end /\ Flat(f, p, x.end)
     /\ Len(b0) = (IF hidden THEN 2 ELSE 1) /\ {b0[i].type : i \in 1..Len(b0)} = {IF e.video THEN avcC ELSE esds} \cup (IF hidden THEN {sinf} ELSE {})
     /\ IF e.video
        THEN LET ns == U16(e.cpd, 0) sps == At(e.cpd, 2, ns) pps == SubSeq(e.cpd, ns + 5, Len(e.cpd)) z == PictureSize(sps) IN
             /\ At(f, x.in + 24, 4) = W2(z.w) \o W2(z.h)
             /\ SubSeq(f, b[1].in + 1, b[1].end) = <<1, sps[2], sps[3], sps[4], 255, 225>> \o W2(ns) \o sps \o <<1>> \o W2(Len(pps)) \o pps
        ELSE LET es == Desc(f, b[1].in + 4) dc == Desc(f, es.in + 3) ds == Desc(f, dc.in + 13) IN
             /\ b[1].end - b[1].in >= 30 /\ es.tag = 3 /\ dc.tag = 4 /\ ds.tag = 5 /\ es.end = b[1].end /\ dc.end <= es.end /\ ds.end <= dc.end
             /\ At(f, ds.in, 2) = e.cpd
             /\ At(f, x.in + 16, 2) = W2((e.cpd[2] \div 8) % 16)
     /\ hidden => HiddenOk(f, b[2], IF e.video THEN avc1 ELSE mp4a, e.kid)
InitOk(f, e) ==
  /\ Len(f) > 0 /\ Flat(f, 0, Len(f))
  /\ LET t == Top(f) IN /\ Len(t) = 2 /\ t[1].type = ftyp /\ t[2].type = moov
  /\ LET m == Top(f)[2]
         np == IF Len(e.pssh) > m.end - m.in THEN 0 ELSE Len(e.pssh)
         b == Boxes(f, m.in, m.end - np) IN
     /\ Flat(f, m.in, m.end - np) /\ [i \in 1..Len(b) |-> b[i].type] = <<mvhd, trak, mvex>>
     /\ SubSeq(f, m.end - np + 1, m.end) = e.pssh
     /\ HeadScale(f, b[1]) = e.scale
     /\ LET k == b[2] x == b[3] IN
        /\ Single(f, k, tkhd) /\ Single(f, k, mdia) /\ U32(f, The(f, k, tkhd).in + (IF Ver(f, The(f, k, tkhd)) = 1 THEN 20 ELSE 12)) = e.track
        /\ LET md == The(f, k, mdia) IN
           /\ Single(f, md, mdhd) /\ Single(f, md, hdlr) /\ Single(f, md, minf) /\ HeadScale(f, The(f, md, mdhd)) = e.scale
           /\ Type(f, The(f, md, hdlr).in + 4) = (IF e.video THEN vide ELSE soun)
           /\ LET tb == The(f, The(f, md, minf), stbl) IN
              /\ \A y \in {stsd, stts, stsc, stsz, stco} : Single(f, tb, y)
              /\ EntryOk(f, k, e)
              /\ Empty(f, The(f, tb, stts), 4) /\ Empty(f, The(f, tb, stsc), 4) /\ Empty(f, The(f, tb, stco), 4) /\ Empty(f, The(f, tb, stsz), 8)
        /\ LET y == Boxes(f, x.in, x.end) IN
           /\ Flat(f, x.in, x.end) /\ [i \in 1..Len(y) |-> y[i].type] = <<mehd, trex>>
           \* the length of the whole, in the units of the movie
           /\ Near(BSec(IF Ver(f, y[1]) = 1 THEN U64(f, y[1].in + 4) ELSE U32(f, y[1].in + 4)), Scaled(e.dur, e.scale), Scale7)
           /\ y[1].end = y[1].in + (IF Ver(f, y[1]) = 1 THEN 12 ELSE 8)
           /\ y[2].end = y[2].in + 24 /\ U32(f, y[2].in + 4) = e.track /\ U32(f, y[2].in + 8) = <<1>>
==============================================================================
