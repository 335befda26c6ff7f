--------------------------------- MODULE Mp4 ---------------------------------
(* What the bytes of an MP4 file mean: the tree of boxes, and the sample      *)
(* tables of its tracks expanded to one entry per sample. Times are in the    *)
(* track's own ticks or in units of 100 ns, and may be large (module Big).    *)
EXTENDS Big, FiniteSets, SequencesExt
\* f: the file as a sequence of bytes; positions count from 0
U8(f, p) == f[p + 1]
U16(f, p) == f[p + 1] * 256 + f[p + 2]
U32(f, p) == BU32(f[p + 1], f[p + 2], f[p + 3], f[p + 4])
N32(f, p) == ((f[p + 1] * 256 + f[p + 2]) * 256 + f[p + 3]) * 256 + f[p + 4]        \* only below 2^31
U64(f, p) == BAdd(BMul(BMul(U32(f, p), 65536), 65536), U32(f, p + 4))
Minus1(f, p, n) == \A k \in 1..n : f[p + k] = 255
Type(f, p) == <<f[p + 5], f[p + 6], f[p + 7], f[p + 8]>>
\* the boxes that follow one another between two positions: type, where it and its contents begin, where it ends
RECURSIVE Boxes(_, _, _)
Boxes(f, lo, hi) ==
  IF lo + 8 > hi THEN <<>>
  ELSE LET s32 == N32(f, lo)
           size == IF s32 = 1 THEN N32(f, lo + 12) ELSE IF s32 = 0 THEN hi - lo ELSE s32
           in == lo + (IF s32 = 1 THEN 16 ELSE 8)
       IN <<[type |-> Type(f, lo), at |-> lo, in |-> in, end |-> lo + size]>> \o Boxes(f, lo + size, hi)
Tag(a, b, c, d) == <<a, b, c, d>>
ftyp == Tag(102,116,121,112) moov == Tag(109,111,111,118) mvhd == Tag(109,118,104,100) trak == Tag(116,114,97,107) tkhd == Tag(116,107,104,100)
mdia == Tag(109,100,105,97) mdhd == Tag(109,100,104,100) hdlr == Tag(104,100,108,114) minf == Tag(109,105,110,102) stbl == Tag(115,116,98,108)
stts == Tag(115,116,116,115) ctts == Tag(99,116,116,115) stsc == Tag(115,116,115,99) stsz == Tag(115,116,115,122) stco == Tag(115,116,99,111)
stss == Tag(115,116,115,115) edts == Tag(101,100,116,115) elst == Tag(101,108,115,116) mdat == Tag(109,100,97,116) stsd == Tag(115,116,115,100)
vide == Tag(118,105,100,101) soun == Tag(115,111,117,110)
Sub(f, b, t) == SelectSeq(Boxes(f, b.in, b.end), LAMBDA x : x.type = t)
Has1(f, b, t) == Sub(f, b, t) # <<>>
The(f, b, t) == Sub(f, b, t)[1]
Top(f) == Boxes(f, 0, Len(f))
TopOf(f, t) == SelectSeq(Top(f), LAMBDA x : x.type = t)

\* a table of n entries of w words each, the first at p
Rows(f, p, n, w) == [i \in 1..n |-> [k \in 1..w |-> U32(f, p + 4 * (w * (i - 1) + k - 1))]]
RECURSIVE Repeat(_, _), Runs(_), Sums(_, _)
Repeat(x, n) == [i \in 1..n |-> x]
\* a run-length table as a sequence
Runs(rows) == IF rows = <<>> THEN <<>> ELSE Repeat(rows[1][2], BNat(rows[1][1])) \o Runs(Tail(rows))
\* the times at which intervals that follow one another begin
Sums(d, at) == IF d = <<>> THEN <<>> ELSE <<at>> \o Sums(Tail(d), BAdd(at, d[1]))
\* chunk numbers as samples see them: the number of samples in each chunk
PerChunk(rows, k) == LET r == CHOOSE i \in 1..Len(rows) : BNat(rows[i][1]) <= k /\ (i = Len(rows) \/ BNat(rows[i + 1][1]) > k) IN BNat(rows[r][2])
RECURSIVE Place(_, _, _, _, _, _)
\* the offsets of samples n.. when the next one goes to chunk k, in its place j, at position p
Place(sizes, per, chunks, k, j, p) ==
  IF sizes = <<>> THEN <<>>
  ELSE IF j > per[k] THEN Place(sizes, per, chunks, k + 1, 1, chunks[k + 1])
  ELSE <<p>> \o Place(Tail(sizes), per, chunks, k, j + 1, BAdd(p, sizes[1]))

\* 100 ns units of a time in ticks
Hns(t, scale) == BDivBig(BSec(t), scale)
Version(f, b) == U8(f, b.in)
\* header times: scale and duration
HeadScale(f, b) == IF Version(f, b) = 1 THEN U32(f, b.in + 20) ELSE U32(f, b.in + 12)
HeadDur(f, b) == IF Version(f, b) = 1 THEN U64(f, b.in + 24) ELSE U32(f, b.in + 16)
Lang(f, b) == LET w == U16(f, b.in + (IF Version(f, b) = 1 THEN 32 ELSE 20)) IN <<((w \div 1024) % 32) + 96, ((w \div 32) % 32) + 96, (w % 32) + 96>>

Table(f, b, w) == Rows(f, b.in + 8, N32(f, b.in + 4), w)
Track(f, t, movie) ==
  LET md == The(f, t, mdia)
      mh == The(f, md, mdhd)
      tb == The(f, The(f, md, minf), stbl)
      zb == The(f, tb, stsz)
      fixed == U32(f, zb.in + 4)
      n == N32(f, zb.in + 8)
      sizes == IF fixed = <<>> THEN [i \in 1..n |-> U32(f, zb.in + 12 + 4 * (i - 1))] ELSE Repeat(fixed, n)
      dur == Runs(Table(f, The(f, tb, stts), 2))
      dec == Sums(dur, <<>>)
      co == IF Has1(f, tb, ctts) THEN Runs(Table(f, The(f, tb, ctts), 2)) ELSE Repeat(<<>>, n)
      chunks == LET r == Table(f, The(f, tb, stco), 1) IN [i \in 1..Len(r) |-> r[i][1]]
      sc == Table(f, The(f, tb, stsc), 3)
      per == [k \in 1..Len(chunks) |-> PerChunk(sc, k)]
      hasSync == Has1(f, tb, stss)
      sync == IF hasSync THEN {BNat(r[1]) : r \in ToSet(Table(f, The(f, tb, stss), 1))} ELSE 1..n
      scale == HeadScale(f, mh)
      el == IF Has1(f, t, edts) THEN Sub(f, The(f, t, edts), elst) ELSE <<>>
      e == el[1]
      offset == IF el # <<>> /\ N32(f, e.in + 4) = 2 /\ Minus1(f, e.in + (IF Version(f, e) = 1 THEN 16 ELSE 12), IF Version(f, e) = 1 THEN 8 ELSE 4)
                THEN IF Version(f, e) = 1 THEN U64(f, e.in + 8) ELSE U32(f, e.in + 8) ELSE <<>>
  IN [n |-> n, kind |-> Type(f, The(f, md, hdlr).in + 4), scale |-> scale, dur |-> HeadDur(f, mh), lang |-> Lang(f, mh),
      hasCo |-> Has1(f, tb, ctts), hasSync |-> hasSync, nstts |-> Len(dur), nctts |-> Len(co),
      size |-> sizes, off |-> IF n = 0 THEN <<>> ELSE Place(sizes, per, chunks, 1, 1, chunks[1]), sync |-> sync,
      rdec |-> SubSeq(dec, 1, n), rcomp |-> [i \in 1..n |-> BAdd(dec[i], co[i])],
      dec |-> [i \in 1..n |-> Hns(dec[i], scale)], comp |-> [i \in 1..n |-> Hns(BAdd(dec[i], co[i]), scale)],
      dr |-> [i \in 1..n |-> Hns(dur[i], scale)],
      rdur |-> SubSeq(dur, 1, n), per |-> per, offset |-> Hns(offset, HeadScale(f, The(f, movie, mvhd)))]
Tracks(f) == LET m == TopOf(f, moov)[1]
                 ts == Sub(f, m, trak)
             IN [i \in 1..Len(ts) |-> Track(f, ts[i], m)]
Movie(f) == LET m == TopOf(f, moov)[1] h == The(f, m, mvhd) IN [scale |-> HeadScale(f, h), dur |-> HeadDur(f, h), tracks |-> Tracks(f)]
==============================================================================
