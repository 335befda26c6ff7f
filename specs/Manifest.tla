------------------------------- MODULE Manifest -------------------------------
(* Presentations and the manifests written from them.                         *)
(* A presentation is a set of streams; a stream has bit rates and points: the  *)
(* computed times at which a chunk begins, the last of them being only the end.*)
(* All times are natural numbers of 100 ns (Big); before a presentation is     *)
(* rebased its times carry a bias, so that they may be negative.               *)
EXTENDS Big, FiniteSets, TLC
RECURSIVE Less(_, _)
Less(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE ELSE IF Head(a) # Head(b) THEN Head(a) < Head(b) ELSE Less(Tail(a), Tail(b))
Zero == <<>>
Bias == BParts(<<0, 4096, 0, 0>>)                       \* 2^44
BMin(a, b) == IF BLt(b, a) THEN b ELSE a
BMax(a, b) == IF BLt(a, b) THEN b ELSE a
BMod(a, d) == BSub(a, BMul(BDiv(a, d), d))
Dist(a, b) == IF BLt(a, b) THEN BSub(b, a) ELSE BSub(a, b)
RECURSIVE BDecAt(_, _)
Pad(n, w) == IF w = 4 /\ n < 1000 THEN (IF n < 10 THEN "000" ELSE IF n < 100 THEN "00" ELSE "0") \o ToString(n)
             ELSE IF w = 3 /\ n < 100 THEN (IF n < 10 THEN "00" ELSE "0") \o ToString(n)
             ELSE IF w = 2 /\ n < 10 THEN "0" \o ToString(n) ELSE ToString(n)
BDecAt(a, k) == IF k = 0 THEN "" ELSE Pad(a[k], 4) \o BDecAt(a, k - 1)
\* a number in decimal
BDec(a) == IF a = <<>> THEN "0" ELSE ToString(a[Len(a)]) \o BDecAt(a, Len(a) - 1)
\* a time as hours, minutes, seconds and milliseconds
Fields(v) == LET ms == BDiv(v, 10000)  sec == BDiv(ms, 1000)  min == BDiv(sec, 60) IN
             <<BNat(BDiv(min, 60)), BNat(BMod(min, 60)), BNat(BMod(sec, 60)), BNat(BMod(ms, 1000))>>
HMS(v) == LET f == Fields(v) IN Pad(f[1], 2) \o ":" \o Pad(f[2], 2) \o ":" \o Pad(f[3], 2) \o "." \o Pad(f[4], 3)
OfFields(f) == BMul(BAdd(BMul(BAdd(BMul(BInt(f[1]), 60), BAdd(BInt(f[2]), Zero)), 60), BInt(f[3])), 1000)

(*---------------------------------------------------------------- points    *)
\* points: sequence of [t, c, x] in order of t, x being <<>> or <<t1, c1, t2, c2>>
Put(P, p) == LET lo == SelectSeq(P, LAMBDA q : BLt(q.t, p.t))  hi == SelectSeq(P, LAMBDA q : BLt(p.t, q.t)) IN lo \o <<p>> \o hi
At(P, t) == CHOOSE k \in 0..Len(P) : (k = 0 /\ \A j \in 1..Len(P) : P[j].t # t) \/ (k > 0 /\ P[k].t = t)
First(P) == IF P = <<>> THEN Bias ELSE P[1].t           \* 0 when there is none
Last(P) == IF P = <<>> THEN Bias ELSE P[Len(P)].t
Span(P) == IF P = <<>> THEN Zero ELSE BSub(Last(P), First(P))
\* a point nearest to t, for a t at most the last one
Nearest(P, t, r) == /\ At(P, r) > 0
                    /\ \A j \in 1..Len(P) : BLe(Dist(r, t), Dist(P[j].t, t))
Beyond(P, t) == P = <<>> \/ BLt(Last(P), t)
\* when the chunk that begins at t ends, in its own file: the next point's time
\* there, or, when the next point belongs to another file, as long after its begin
\* (a point at which a chunk begins that spans two files ends in the second)
Comp(p) == IF p.x = <<>> THEN p.c ELSE p.x[2]
Ends(P, F, t) == LET k == At(P, t)  n == P[k + 1]
                     b == IF P[k].x = <<>> THEN t ELSE P[k].x[3]  c == IF P[k].x = <<>> THEN P[k].c ELSE P[k].x[4] IN
                 IF \E f \in F : BLt(b, f) /\ BLe(f, n.t) THEN BAdd(c, BSub(n.t, b)) ELSE Comp(n)
\* paths: sequence of [t, p] in the order they were added
AddPath(A, t, p) == LET a == IF A = <<>> /\ BLt(Bias, t) THEN <<[t |-> Bias, p |-> p]>> ELSE A IN
                    IF \E k \in 1..Len(a) : a[k].t = t THEN a ELSE Append(a, [t |-> t, p |-> p])
PathOf(A, t) == LET lo == {k \in 1..Len(A) : BLe(A[k].t, t)} IN
                IF lo = {} THEN A[CHOOSE k \in 1..Len(A) : \A j \in 1..Len(A) : BLe(A[k].t, A[j].t)].p
                ELSE A[CHOOSE k \in lo : \A j \in lo : BLe(A[j].t, A[k].t)].p
\* moving a presentation whose earliest point lies before zero
Earliest(S) == LET ts == {First(s.points) : s \in {S[i] : i \in DOMAIN S}} IN CHOOSE m \in ts : \A o \in ts : BLe(m, o)
Moved(s, d) == [s EXCEPT !.points = [k \in 1..Len(@) |-> [@[k] EXCEPT !.t = BAdd(@, d),
                                       !.x = IF @ = <<>> THEN @ ELSE <<BAdd(@[1], d), @[2], BAdd(@[3], d), @[4]>>]],
                         !.files = {BAdd(f, d) : f \in @},
                         !.rates = [k \in 1..Len(@) |-> [@[k] EXCEPT !.paths = [j \in 1..Len(@) |-> [@[j] EXCEPT !.t = BAdd(@, d)]]]]]
Rebased(S) == IF S # <<>> /\ BLt(Earliest(S), Bias) THEN [i \in DOMAIN S |-> Moved(S[i], BSub(Bias, Earliest(S)))] ELSE S

(*------------------------------------------------------------ what is shown *)
\* stream: [name, video, rate, channels, bits, rates : <<[bitrate, w, h, cpd]>>, chunks : <<[t, d, info]>>]
\* info: per bit rate what the chunk is made of: <<[cross, path, c, t]>>
Un(t) == BSub(t, Bias)
Info(s, k) == LET p == s.points[k] IN
              [j \in 1..Len(s.rates) |->
                 LET A == s.rates[j].paths IN
                 IF p.x = <<>> THEN <<[cross |-> FALSE, path |-> PathOf(A, p.t), c |-> Un(p.c), t |-> Un(p.t)]>>
                 ELSE <<[cross |-> TRUE, path |-> PathOf(A, p.x[1]), c |-> Un(p.x[2]), t |-> Un(p.x[1])],
                        [cross |-> TRUE, path |-> PathOf(A, p.x[3]), c |-> Un(p.x[4]), t |-> Un(p.x[3])]>>]
RECURSIVE Flat(_, _)
Flat(s, k) == IF k > Len(s) THEN <<>> ELSE s[k] \o Flat(s, k + 1)
Shown(s) == [name |-> s.name, video |-> s.video, rate |-> s.rate, channels |-> s.channels, bits |-> s.bits, rates |-> s.rates,
             chunks |-> [k \in 1..(IF s.points = <<>> THEN 0 ELSE Len(s.points) - 1) |->
                          [t |-> Un(s.points[k].t), d |-> BSub(s.points[k + 1].t, s.points[k].t), info |-> Flat(Info(s, k), 1)]]]
\* streams in the order of their names
ByName(S) == SortSeq(S, LAMBDA a, b : Less(a.nb, b.nb))
Presented(S) == LET R == Rebased(S)  Q == [i \in 1..Len(R) |-> R[i]] IN
                [duration |-> Span((CHOOSE s \in {R[i] : i \in DOMAIN R} : s.id = 0).points),
                 streams |-> [i \in 1..Len(Q) |-> Shown(ByName(Q)[i])]]

(*---------------------------------------------------------------- documents *)
\* a document: its elements in order, [e, depth, a]; attributes [s, n, sec]
LOCAL Has(r, f) == f \in DOMAIN r
Attr(x, k, v) == Has(x.a, k) /\ x.a[k].s = v
Num(x, k, v) == Has(x.a, k) /\ Has(x.a[k], "n") /\ BParts(x.a[k].n) = v
Nth(D, e) == SelectSeq([k \in 1..Len(D) |-> k], LAMBDA k : D[k].e = e)
\* elements e inside the element at k
Within(D, k, e) == LET ends == {j \in (k + 1)..Len(D) : D[j].depth <= D[k].depth}
                       last == IF ends = {} THEN Len(D) ELSE (CHOOSE j \in ends : \A i \in ends : j <= i) - 1 IN
                   SelectSeq(SubSeq(D, k + 1, last), LAMBDA x : x.e = e)
Hex == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "A", "B", "C", "D", "E", "F">>
HexByte(b) == Hex[(b \div 16) + 1] \o Hex[(b % 16) + 1]
RECURSIVE HexAt(_, _)
HexAt(b, k) == IF k > Len(b) THEN "" ELSE HexByte(b[k]) \o HexAt(b, k + 1)
HexOf(b) == HexAt(b, 1)
\* private data of video: two bytes of length, the sequence parameter set, the same for the picture's
SpsOf(cpd) == SubSeq(cpd, 3, 2 + cpd[1] * 256 + cpd[2])
PpsOf(cpd) == SubSeq(cpd, Len(SpsOf(cpd)) + 5, Len(cpd))
Codec(video, r) == IF video THEN "avc1." \o HexOf(SubSeq(r.cpd, 4, 6)) ELSE "mp4a.40.2"
Ext(s) == IF s.video THEN ".m4v" ELSE ".m4a"
Kind(s) == IF s.video THEN "video" ELSE "audio"
RECURSIVE MaxOf(_, _, _)
MaxOf(rates, k, f) == IF k > Len(rates) THEN 0 ELSE LET m == MaxOf(rates, k + 1, f) IN IF rates[k][f] > m THEN rates[k][f] ELSE m

(* DASH: the expansion of a segment timeline *)
RECURSIVE Expand(_, _, _), Repeat(_, _, _)
Repeat(t, d, n) == IF n = 0 THEN <<>> ELSE <<<<t, d>>>> \o Repeat(BAdd(t, d), d, n - 1)
Expand(S, k, at) ==
  IF k > Len(S) THEN <<>>
  ELSE LET x == S[k].a
           t == IF Has(x, "t") THEN BParts(x.t.n) ELSE at
           d == BParts(x.d.n)
           n == IF Has(x, "r") THEN 1 + BNat(BParts(x.r.n)) ELSE 1
           r == Repeat(t, d, n)
       IN r \o Expand(S, k + 1, BAdd(r[n][1], d))
Numbers(S) == \A k \in 1..Len(S) : /\ Has(S[k].a, "d") /\ Has(S[k].a.d, "n")
                                   /\ (Has(S[k].a, "t") => Has(S[k].a.t, "n"))
                                   /\ (Has(S[k].a, "r") => Has(S[k].a.r, "n"))
DashSet(D, k, s, o) ==
  LET x == D[k]  T == Within(D, k, "SegmentTemplate")  S == Within(D, k, "S")  R == Within(D, k, "Representation")  C == Within(D, k, "ContentProtection")
      name == IF o.noname THEN Kind(s) ELSE s.name
      own == SelectSeq(o.protect, LAMBDA p : p.video = s.video) IN
  /\ Attr(x, "contentType", Kind(s)) /\ Attr(x, "mimeType", Kind(s) \o "/mp4")
  /\ (s.video => Num(x, "maxWidth", BInt(MaxOf(s.rates, 1, "w"))) /\ Num(x, "maxHeight", BInt(MaxOf(s.rates, 1, "h"))))
  /\ Len(T) = 1 /\ Attr(T[1], "timescale", "10000000")
  /\ Attr(T[1], "media", name \o "_$Bandwidth$_$Time$" \o Ext(s)) /\ Attr(T[1], "initialization", name \o "_$Bandwidth$_i" \o Ext(s))
  /\ Numbers(S) /\ Expand(S, 1, Zero) = [j \in 1..Len(s.chunks) |-> <<s.chunks[j].t, s.chunks[j].d>>]
  /\ Len(R) = Len(s.rates)
  /\ \A j \in 1..Len(R) : LET r == s.rates[j] IN
       /\ Num(R[j], "bandwidth", r.bitrate)
       /\ (IF Has(R[j].a, "codecs") THEN R[j].a.codecs.s = Codec(s.video, r) ELSE Attr(x, "codecs", Codec(s.video, r)))
       /\ (s.video => Num(R[j], "width", BInt(r.w)) /\ Num(R[j], "height", BInt(r.h)))
       /\ (~s.video => Num(R[j], "audioSamplingRate", BInt(s.rate)))
  /\ [j \in 1..Len(C) |-> C[j].a.schemeIdUri.s] = [j \in 1..Len(own) |-> own[j].uri]
Dash(D, N, o) ==
  LET A == Nth(D, "AdaptationSet")  R == Nth(D, "Representation") IN
  /\ D[1].e = "MPD" /\ Attr(D[1], "type", "static")
  /\ Has(D[1].a, "mediaPresentationDuration") /\ Has(D[1].a.mediaPresentationDuration, "sec") /\ BParts(D[1].a.mediaPresentationDuration.sec) = N.duration
  /\ Len(Nth(D, "Period")) = 1
  /\ Len(A) = Len(N.streams)
  /\ \A i \in 1..Len(A) : DashSet(D, A[i], N.streams[i], o)
  /\ \A i, j \in 1..Len(R) : i # j => D[R[i]].a.id.s # D[R[j]].a.id.s
  /\ \A i, j \in 1..Len(A) : i # j => D[A[i]].a.id.s # D[A[j]].a.id.s

(* Smooth streaming: the index the server keeps *)
SmoothStream(D, k, s, o) ==
  LET x == D[k]  Q == Within(D, k, "QualityLevel")  C == SelectSeq([j \in 1..Len(D) |-> j], LAMBDA j : j > k /\ D[j].e = "c" /\ \A i \in (k + 1)..j : D[i].depth > D[k].depth) IN
  /\ Attr(x, "Type", Kind(s)) /\ Attr(x, "Name", s.name)
  /\ Attr(x, "Url", (IF o.noname THEN Kind(s) ELSE s.name) \o "_{bitrate}_{start time}" \o Ext(s))
  /\ Num(x, "Chunks", BInt(Len(s.chunks))) /\ Num(x, "QualityLevels", BInt(Len(s.rates)))
  /\ Len(Q) = Len(s.rates)
  /\ \A j \in 1..Len(Q) : LET r == s.rates[j] IN
       /\ Num(Q[j], "Bitrate", r.bitrate)
       /\ (s.video => /\ Attr(Q[j], "FourCC", "AVC1") /\ Num(Q[j], "MaxWidth", BInt(r.w)) /\ Num(Q[j], "MaxHeight", BInt(r.h))
                      /\ Attr(Q[j], "CodecPrivateData", HexOf(<<0, 0, 0, 1>> \o SpsOf(r.cpd) \o <<0, 0, 0, 1>> \o PpsOf(r.cpd))))
       /\ (~s.video => Num(Q[j], "SamplingRate", BInt(s.rate)) /\ Num(Q[j], "Channels", BInt(s.channels)) /\ Num(Q[j], "BitsPerSample", BInt(s.bits)))
  /\ \A i, j \in 1..Len(Q) : i # j => Q[i].a.Index.s # Q[j].a.Index.s
  /\ Len(C) = Len(s.chunks)
  /\ \A j \in 1..Len(C) : LET c == s.chunks[j]
                              I == SelectSeq(SubSeq(D, C[j] + 1, Len(D)), LAMBDA z : TRUE)
                              n == Len(c.info) IN
       /\ Num(D[C[j]], "d", c.d)
       /\ ((j = 1 \/ Has(D[C[j]].a, "t")) => Num(D[C[j]], "t", c.t))
       /\ Len(I) >= n
       /\ (Len(I) > n => I[n + 1].depth <= D[C[j]].depth)
       /\ \A m \in 1..n : LET y == I[m]  w == c.info[m] IN
            /\ y.e = (IF w.cross THEN "cp" ELSE "h")
            /\ Attr(y, "p", w.path) /\ Num(y, "t", w.c) /\ Num(y, "c", w.t) /\ Attr(y, "k", HMS(w.t))
Smooth(D, N, o) ==
  LET A == Nth(D, "StreamIndex") IN
  /\ D[1].e = "SmoothStreamingMedia" /\ Num(D[1], "Duration", N.duration)
  /\ Len(A) = Len(N.streams)
  /\ \A i \in 1..Len(A) : SmoothStream(D, A[i], N.streams[i], o)

(* HLS: the main playlist and one for each bit rate of the video stream.      *)
\* seconds, rounded to the nearest, and up
Round(d) == BDiv(BDiv(BAdd(d, BInt(5000000)), 10000), 1000)
Ceil(d) == BDiv(BDiv(BAdd(d, BInt(9999999)), 10000), 1000)
Lines(L, t) == SelectSeq(L, LAMBDA x : x.t = t)
\* the address behind the line at k
Behind(L, k) == IF k < Len(L) /\ L[k + 1].t = "" THEN L[k + 1].v ELSE "?"
Tagged(L, t) == SelectSeq([k \in 1..Len(L) |-> k], LAMBDA k : L[k].t = t)
HlsMedia(L, v, r, prefix, o) ==
  LET X == Tagged(L, "#EXTINF")  G == Lines(L, "#EXT-X-TARGETDURATION")  K == Lines(L, "#EXT-X-KEY") IN
  /\ L[1].t = "#EXTM3U" /\ L[Len(L)].t = "#EXT-X-ENDLIST"
  /\ Len(Tagged(L, "#EXTM3U")) = 1 /\ Len(Tagged(L, "#EXT-X-ENDLIST")) = 1
  /\ Len(X) = Len(v.chunks) /\ Len(Tagged(L, "")) = Len(X)
  /\ \A j \in 1..Len(X) : /\ Has(L[X[j]].a, "1") /\ Has(L[X[j]].a["1"], "sec") /\ BParts(L[X[j]].a["1"].sec) = v.chunks[j].d
                          /\ Behind(L, X[j]) = prefix \o "_" \o BDec(r.bitrate) \o "_" \o BDec(v.chunks[j].t) \o ".ts"
  /\ Len(G) = 1 /\ Has(G[1].a, "1") /\ Has(G[1].a["1"], "n")
  /\ \A j \in 1..Len(v.chunks) : BLe(Round(v.chunks[j].d), BParts(G[1].a["1"].n))
  /\ \E j \in 1..Len(v.chunks) : BLe(BParts(G[1].a["1"].n), Ceil(v.chunks[j].d))
  /\ IF o.key = "" THEN K = <<>> ELSE Len(K) = 1 /\ K[1].a.METHOD.s = "AES-128" /\ K[1].a.URI.s = o.key
Hls(M, B, N, o) ==
  LET V == SelectSeq(N.streams, LAMBDA s : s.video)
      at == CHOOSE k \in 1..Len(N.streams) : N.streams[k].video
      \* what the audio announced before takes, by default 96 kbit/s
      U == SelectSeq(SubSeq(N.streams, 1, at), LAMBDA s : ~s.video /\ s.rates # <<>>)
      X == Tagged(M, "#EXT-X-STREAM-INF")
      v == V[1]  audio == IF U = <<>> THEN BInt(96000) ELSE LET a == U[Len(U)] IN a.rates[Len(a.rates)].bitrate
      prefix == IF o.noname THEN o.prefix ELSE v.name IN
  /\ M[1].t = "#EXTM3U"
  /\ Len(X) = Len(v.rates) /\ Len(B) = Len(v.rates) /\ Len(Tagged(M, "")) = Len(X)
  /\ \A j \in 1..Len(X) : LET r == v.rates[j]  a == M[X[j]].a IN
       /\ Has(a.BANDWIDTH, "n") /\ BParts(a.BANDWIDTH.n) = BAdd(r.bitrate, audio)
       /\ a.RESOLUTION.s = ToString(r.w) \o "x" \o ToString(r.h)
       /\ a.CODECS.s = Codec(TRUE, r) \o ",mp4a.40.2"
       /\ Behind(M, X[j]) = B[j].name /\ B[j].name = prefix \o "_" \o BDec(r.bitrate) \o ".m3u8"
       /\ HlsMedia(B[j].list, v, r, prefix, o)
===============================================================================
