------------------------------- MODULE Mp4Write -------------------------------
(* What the bytes of a file written by the muxer have to be, given what was    *)
(* added to it. A stream is a record of its description and a sequence of      *)
(* samples; a sample is [comp, dec, sync, d], with times in units of 100 ns.   *)
EXTENDS Mp4, Sps, TLC
Containers == {moov, trak, mdia, minf, stbl, edts, Tag(100,105,110,102)}
avc1 == Tag(97,118,99,49) avcC == Tag(97,118,99,67) mp4a == Tag(109,112,52,97) esds == Tag(101,115,100,115)
Small(f, p) == p + 4 <= Len(f) /\ f[p + 1] = 0
\* boxes fill the space between two positions exactly, at every level
RECURSIVE Tiled(_, _, _), SumN(_)
Tiled(f, lo, hi) ==
  \/ lo = hi
  \/ /\ lo + 8 <= hi /\ Small(f, lo) /\ N32(f, lo) >= 8 /\ lo + N32(f, lo) <= hi
     /\ Type(f, lo) \in Containers => Tiled(f, lo + 8, lo + N32(f, lo))
     /\ Tiled(f, lo + N32(f, lo), hi)
SumN(s) == IF s = <<>> THEN 0 ELSE s[1] + SumN(Tail(s))
Single(f, b, t) == Len(Sub(f, b, t)) = 1
\* a table of rows of w words after skipping s bytes of its contents
TableOk(f, b, s, w) == b.in + s + 4 <= b.end /\ Small(f, b.in + s) /\ b.in + s + 4 + 4 * w * N32(f, b.in + s) = b.end
RunsOk(f, b, n) == TableOk(f, b, 4, 2) /\ LET m == N32(f, b.in + 4) IN
                   /\ \A i \in 1..m : Small(f, b.in + 8 * i)
                   /\ SumN([i \in 1..m |-> N32(f, b.in + 8 * i)]) = n
ChunksOk(f, b, n, k) ==
  /\ TableOk(f, b, 4, 3)
  /\ LET m == N32(f, b.in + 4)
         at(i, j) == b.in + 8 + 12 * (i - 1) + 4 * (j - 1) IN
     /\ \A i \in 1..m : Small(f, at(i, 1)) /\ Small(f, at(i, 2)) /\ N32(f, at(i, 3)) = 1
     /\ IF n = 0 THEN TRUE
        ELSE /\ m > 0 /\ N32(f, at(1, 1)) = 1 /\ N32(f, at(m, 1)) <= k
             /\ \A i \in 1..m - 1 : N32(f, at(i, 1)) < N32(f, at(i + 1, 1))
             /\ SumN([i \in 1..m |-> N32(f, at(i, 2)) * ((IF i = m THEN k + 1 ELSE N32(f, at(i + 1, 1))) - N32(f, at(i, 1)))]) = n
TrackOk(f, t) ==
  /\ Single(f, t, tkhd) /\ Single(f, t, mdia)
  /\ LET md == The(f, t, mdia) IN
     /\ Single(f, md, mdhd) /\ Single(f, md, hdlr) /\ Single(f, md, minf)
     /\ Single(f, The(f, md, minf), stbl)
     /\ LET tb == The(f, The(f, md, minf), stbl) IN
        /\ \A x \in {stsd, stts, stsc, stsz, stco} : Single(f, tb, x)
        /\ LET z == The(f, tb, stsz) IN
           /\ z.in + 12 <= z.end /\ Small(f, z.in + 8) /\ Small(f, z.in + 4)
           /\ z.end = z.in + 12 + (IF N32(f, z.in + 4) = 0 THEN 4 * N32(f, z.in + 8) ELSE 0)
           /\ LET n == N32(f, z.in + 8) IN
              /\ RunsOk(f, The(f, tb, stts), n)
              /\ Has1(f, tb, ctts) => Single(f, tb, ctts) /\ RunsOk(f, The(f, tb, ctts), n)
              /\ TableOk(f, The(f, tb, stco), 4, 1)
              /\ ChunksOk(f, The(f, tb, stsc), n, N32(f, The(f, tb, stco).in + 4))
              /\ Has1(f, tb, stss) => Single(f, tb, stss) /\ TableOk(f, The(f, tb, stss), 4, 1)
                   /\ LET s == The(f, tb, stss) IN \A i \in 1..N32(f, s.in + 4) : Small(f, s.in + 4 + 4 * i) /\ N32(f, s.in + 4 + 4 * i) \in 1..n
     /\ LET el == IF Has1(f, t, edts) THEN Sub(f, The(f, t, edts), elst) ELSE <<>> IN el # <<>> => el[1].in + 8 <= el[1].end /\ Small(f, el[1].in + 4)
Sound(f) ==
  /\ Len(f) > 0 /\ Tiled(f, 0, Len(f))
  /\ Len(TopOf(f, moov)) = 1 /\ Len(TopOf(f, mdat)) = 1 /\ Type(f, 0) = ftyp
  /\ LET m == TopOf(f, moov)[1] IN Single(f, m, mvhd) /\ \A i \in 1..Len(Sub(f, m, trak)) : TrackOk(f, Sub(f, m, trak)[i])

\* every header says when the file was made, in seconds since 1904
Since1904 == BMul(BInt(24107), 86400)       \* from 1904 to 1970, see Calendar
Stamps(f, b) == IF Version(f, b) = 1 THEN {U64(f, b.in + 4), U64(f, b.in + 12)} ELSE {U32(f, b.in + 4), U32(f, b.in + 8)}
Dated(f, from, to) ==
  LET m == TopOf(f, moov)[1] t == Sub(f, m, trak)
      H == {The(f, m, mvhd)} \cup {The(f, t[i], tkhd) : i \in 1..Len(t)} \cup {The(f, The(f, t[i], mdia), mdhd) : i \in 1..Len(t)}
  IN \A b \in H : \A x \in Stamps(f, b) : BLe(BAdd(from, Since1904), x) /\ BLe(x, BAdd(to, Since1904))

\* ------------------------------------------------------------------ times
Scale7 == BInt(10000000)
Scaled(x, sc) == IF sc = Scale7 THEN BSec(x) ELSE BMul(x, BNat(sc))
Near(a, b, t) == BLe(a, BAdd(b, t)) /\ BLe(b, BAdd(a, t))
Multiple(x, m) == LET q == BDivBig(x, m) IN (IF m = Scale7 THEN BSec(q) ELSE BMul(q, BNat(m))) = x
\* a time that a time scale can express
Fits(x, sc) == Multiple(Scaled(x, sc), Scale7)
InMs(x) == Multiple(x, BInt(10000))
TickHns(sc) == BAdd(BDivBig(Scale7, sc), <<1>>)
Fit(st, sc) == \A k \in 1..Len(st.a) : Fits(st.a[k].comp, sc) /\ Fits(st.a[k].dec, sc) /\ InMs(st.a[k].comp) /\ InMs(st.a[k].dec)
\* decoding times count from the first
DecOk(st, tr) ==
  LET exact == Fit(st, st.scale) IN
  \A k \in 1..Len(st.a) :
    LET want == Scaled(BSub(st.a[k].dec, st.a[1].dec), st.scale) got == BSec(tr.rdec[k]) IN
    IF exact THEN want = got ELSE Near(want, got, BAdd(Scale7, BMul(st.scale, k)))
\* presentation times keep their distances, within a stream and between streams
Shown(tr, k) == BAdd(tr.comp[k], tr.offset)
CompOk(S, trs) ==
  LET exact == \A s, r \in DOMAIN S : Fit(S[s], S[r].scale)
      tol(s, k) == IF exact THEN <<>> ELSE BAdd(BMul(TickHns(S[s].scale), 2), BInt(10000 + k)) IN
  \A s \in DOMAIN S : \A k \in 1..Len(S[s].a) :
    Near(BAdd(Shown(trs[s], k), S[1].a[1].comp), BAdd(Shown(trs[1], 1), S[s].a[k].comp), BAdd(tol(s, k), tol(1, 1)))

\* ------------------------------------------------------------------ descriptions
At(f, p, n) == SubSeq(f, p + 1, p + n)
W2(n) == <<n \div 256, n % 256>>
Zeros(n) == [i \in 1..n |-> 0]
EntryOf(f, t) == LET b == The(f, The(f, The(f, The(f, t, mdia), minf), stbl), stsd) IN Boxes(f, b.in + 8, b.end)
VideoOk(f, t, st) ==
  LET e == EntryOf(f, t)[1] IN
  /\ Len(EntryOf(f, t)) = 1 /\ e.type = avc1 /\ e.end - e.at >= 86
  /\ At(f, e.in, 8) = <<0, 0, 0, 0, 0, 0, 0, 1>> /\ At(f, e.in + 8, 16) = Zeros(16)
  /\ LET z == PictureSize(st.sps) IN At(f, e.in + 24, 4) = W2(IF st.w = 0 THEN z.w ELSE st.w) \o W2(IF st.h = 0 THEN z.h ELSE st.h)
  /\ At(f, e.in + 36, 4) = Zeros(4) /\ At(f, e.in + 40, 2) = <<0, 1>> /\ At(f, e.in + 42, 32) = Zeros(32) /\ At(f, e.in + 76, 2) = <<255, 255>>
  /\ Tiled(f, e.in + 78, e.end)
  /\ LET c == SelectSeq(Boxes(f, e.in + 78, e.end), LAMBDA x : x.type = avcC) IN
     Len(c) = 1 /\ At(f, c[1].in, c[1].end - c[1].in) =
        <<1, st.sps[2], st.sps[3], st.sps[4], 255, 225>> \o W2(Len(st.sps)) \o st.sps \o <<1>> \o W2(Len(st.pps)) \o st.pps
Rates == <<96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000>>
RateIdx(r) == (CHOOSE i \in 1..12 : Rates[i] = r) - 1
\* an MPEG-4 descriptor: where its contents begin and end
RECURSIVE DLen(_, _, _)
DLen(f, p, v) == IF f[p + 1] < 128 \/ v > 10000 THEN [v |-> v * 128 + (f[p + 1] % 128), in |-> p + 1] ELSE DLen(f, p + 1, v * 128 + (f[p + 1] - 128))
Desc(f, p) == LET d == DLen(f, p + 1, 0) IN [tag |-> f[p + 1], in |-> d.in, end |-> d.in + d.v]
AudioOk(f, t, st) ==
  LET e == EntryOf(f, t)[1] IN
  /\ Len(EntryOf(f, t)) = 1 /\ e.type = mp4a /\ e.end - e.at >= 60
  /\ At(f, e.in, 8) = <<0, 0, 0, 0, 0, 0, 0, 1>> /\ At(f, e.in + 8, 8) = Zeros(8)
  /\ At(f, e.in + 16, 4) = W2(st.channels) \o <<0, 16>> /\ At(f, e.in + 24, 4) = W2(st.rate) \o <<0, 0>>
  /\ Tiled(f, e.in + 28, e.end)
  /\ LET c == SelectSeq(Boxes(f, e.in + 28, e.end), LAMBDA x : x.type = esds) IN
     /\ Len(c) = 1 /\ c[1].end - c[1].in >= 30
     /\ LET es == Desc(f, c[1].in + 4) dc == Desc(f, es.in + 3) ds == Desc(f, dc.in + 13) IN
        /\ es.tag = 3 /\ dc.tag = 4 /\ ds.tag = 5 /\ es.end = c[1].end /\ dc.end <= es.end /\ ds.end <= dc.end /\ ds.in + 2 <= ds.end
        /\ f[dc.in + 1] = 64
        /\ U16(f, ds.in) \div 8 = st.object * 256 + RateIdx(st.rate) * 16 + st.channels

\* ------------------------------------------------------------------ the whole
\* the tracks of a file, with the offsets also as numbers (before the first: not in the file)
Places(tr, n) == tr @@ [at |-> [k \in 1..tr.n |-> IF BLe(tr.off[k], BInt(n)) THEN BNat(tr.off[k]) ELSE -1]]
Made1(f) == LET trs == Tracks(f) IN [i \in 1..Len(trs) |-> Places(trs[i], Len(f))]
Body(f) == TopOf(f, mdat)[1]
Placed(f, S, trs) ==
  LET body == Body(f) IN
  /\ \A s \in DOMAIN S : \A k \in 1..Len(S[s].a) :
       LET z == Len(S[s].a[k].d) o == trs[s].at[k] IN
       /\ trs[s].size[k] = BInt(z) /\ o >= body.in /\ o + z <= body.end /\ At(f, o, z) = S[s].a[k].d
  /\ \A s, r \in DOMAIN S : \A k \in 1..Len(S[s].a), j \in 1..Len(S[r].a) : (s < r \/ (s = r /\ k < j)) =>
       LET o == trs[s].at[k] p == trs[r].at[j] IN o + Len(S[s].a[k].d) <= p \/ p + Len(S[r].a[j].d) <= o
SyncOk(st, tr) == LET want == {k \in 1..Len(st.a) : st.a[k].sync} IN
                  IF st.kind = vide /\ want # {} THEN tr.sync = want ELSE TRUE
\* the declared length reaches from the first sample to about the last
LengthOk(st, tr) == LET n == Len(st.a) IN n > 0 =>
   LET hi == CHOOSE k \in 1..n : \A j \in 1..n : BLe(tr.rcomp[j], tr.rcomp[k])
       lo == CHOOSE k \in 1..n : \A j \in 1..n : BLe(tr.rcomp[k], tr.rcomp[j])
       gap == FoldLeft(LAMBDA x, d : IF BLe(x, d) THEN d ELSE x, <<>>, tr.rdur) IN
   /\ BLe(tr.dur, BAdd(BSub(tr.rcomp[hi], tr.rcomp[lo]), BAdd(gap, <<3>>)))
   /\ ~st.reordered => BLe(BSub(tr.rcomp[hi], tr.rcomp[lo]), BAdd(tr.dur, <<3>>))
Complete(S, trs) == Len(trs) = Len(S) /\ \A s \in DOMAIN S : trs[s].n = Len(S[s].a)
Written(f, S, trs) ==
  /\ Complete(S, trs) /\ \A s \in DOMAIN S : trs[s].scale = S[s].scale
  /\ Placed(f, S, trs)
  /\ \A s \in DOMAIN S : SyncOk(S[s], trs[s]) /\ (~S[s].auto => DecOk(S[s], trs[s])) /\ LengthOk(S[s], trs[s])
  /\ CompOk(S, trs)
  /\ (\A s \in DOMAIN S : ~S[s].auto) => \E s \in DOMAIN S : trs[s].offset = <<>>
Described(f, S, trs) ==
  LET ts == Sub(f, TopOf(f, moov)[1], trak) IN
  /\ Len(trs) = Len(S)
  /\ \A s \in DOMAIN S : /\ trs[s].kind = S[s].kind /\ trs[s].scale = S[s].scale /\ trs[s].lang = S[s].lang
                         /\ IF S[s].kind = vide THEN VideoOk(f, ts[s], S[s]) ELSE AudioOk(f, ts[s], S[s])
\* a sample is not stored before one of another stream that is due more than a distance earlier
Interleaved(f, trs, S, dist) ==
  Complete(S, trs) /\ Placed(f, S, trs) /\
  LET far == BAdd(dist, BInt(100000)) IN
  \A s, r \in DOMAIN S : s # r => \A k \in 1..Len(S[s].a), j \in 1..Len(S[r].a) :
     trs[s].at[k] < trs[r].at[j] => BLe(S[s].a[k].dec, BAdd(S[r].a[j].comp, far))
==============================================================================
