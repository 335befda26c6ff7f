----------------------------- MODULE ManifestTrace -----------------------------
EXTENDS TraceBase, Manifest
VARIABLES st, dir, opt      \* the streams of the presentation by id; what a renderer was told by itself; its settings
vars == <<tid, l, st, dir, opt>>
V(p) == BParts(p)
Blank == [video |-> TRUE, rate |-> 0, channels |-> 0, bits |-> 0, rates |-> <<>>, points |-> <<>>, files |-> {}]
I(e) == e.id + 1
RateAt(s, b) == CHOOSE k \in 1..Len(s.rates) : s.rates[k].bitrate = b
Doc(e, N) == CASE T.part = "dash" -> ~Has(e, "bad") /\ Dash(e.doc, N, opt)
               [] T.part = "smooth" -> ~Has(e, "bad") /\ Smooth(e.doc, N, opt)
               [] T.part = "hls" -> Hls(e.main, e.media, N, opt)
Ask(e) ==
  LET s == st[I(e)]  t == V(e.t)  k == At(s.points, t)  none == Has(e, "none") IN
  CASE e.op = "closest" -> IF Beyond(s.points, t) THEN none ELSE ~none /\ Nearest(s.points, t, V(e.r))
    [] e.op = "orig" -> IF k = 0 THEN none ELSE ~none /\ (IF s.points[k].x # <<>> THEN Has(e, "cross") ELSE Has(e, "r") /\ V(e.r) = s.points[k].c)
    [] e.op = "endc" -> IF k \in {0, Len(s.points)} THEN none ELSE ~none /\ V(e.r) = s.points[k + 1].t
    [] e.op = "end" -> IF k \in {0, Len(s.points)} THEN none ELSE ~none /\ V(e.r) = Ends(s.points, s.files, t)
    [] e.op = "iscross" -> IF k = 0 THEN none ELSE ~none /\ e.is = (s.points[k].x # <<>>) /\ (e.is => [j \in 1..4 |-> V(e.r[j])] = s.points[k].x)
    [] e.op = "pathof" -> IF \A r \in 1..Len(s.rates) : s.rates[r].bitrate # V(e.bitrate) THEN none
                          ELSE ~none /\ e.path = PathOf(s.rates[RateAt(s, V(e.bitrate))].paths, t)
RateIn(rs, r) == LET lo == SelectSeq(rs, LAMBDA q : BLt(q.bitrate, r.bitrate))  hi == SelectSeq(rs, LAMBDA q : BLt(r.bitrate, q.bitrate)) IN lo \o <<r>> \o hi
Cur == Len(dir.streams)
Step(e) ==
  CASE e.op = "video" -> st' = Append(st, [id |-> e.id, name |-> e.name, nb |-> e.nb] @@ Blank) /\ e.id = Len(st) /\ UNCHANGED <<dir, opt>>
    [] e.op = "audio" -> st' = Append(st, [id |-> e.id, name |-> e.name, nb |-> e.nb, video |-> FALSE, rate |-> e.rate, channels |-> e.channels, bits |-> e.bits] @@ Blank) /\ e.id = Len(st) /\ UNCHANGED <<dir, opt>>
    [] e.op = "rate" -> st' = [st EXCEPT ![I(e)].rates = RateIn(@, [bitrate |-> V(e.bitrate), w |-> e.w, h |-> e.h, cpd |-> e.cpd, paths |-> <<>>])] /\ UNCHANGED <<dir, opt>>
    [] e.op = "point" -> st' = [st EXCEPT ![I(e)].points = Put(@, [t |-> V(e.t), c |-> V(e.c), x |-> <<>>])] /\ UNCHANGED <<dir, opt>>
    [] e.op = "cross" -> st' = [st EXCEPT ![I(e)].points = Put(@, [t |-> V(e.t), c |-> V(e.c), x |-> <<V(e.t), V(e.c), V(e.t2), V(e.c2)>>])] /\ UNCHANGED <<dir, opt>>
    [] e.op = "file" -> st' = [st EXCEPT ![I(e)].files = @ \cup {V(e.t)}] /\ UNCHANGED <<dir, opt>>
    [] e.op = "path" -> st' = [st EXCEPT ![I(e)].rates[RateAt(st[I(e)], V(e.bitrate))].paths = AddPath(@, V(e.t), e.path)] /\ UNCHANGED <<dir, opt>>
    [] e.op = "rebase" -> st' = Rebased(st) /\ UNCHANGED <<dir, opt>>
    [] e.op = "israte" -> e.has = (\E k \in 1..Len(st[I(e)].rates) : st[I(e)].rates[k].bitrate = V(e.bitrate)) /\ UNCHANGED <<st, dir, opt>>
    [] e.op \in {"closest", "orig", "endc", "end", "iscross", "pathof"} -> Ask(e) = TRUE /\ UNCHANGED <<st, dir, opt>>
    [] e.op = "span" -> /\ LET P == st[I(e)].points IN
                           (e.count = Len(P) /\ V(e.mint) = First(P) /\ V(e.maxt) = Last(P) /\ V(e.length) = Span(P)
                            /\ e.streams = <<Len(st), Cardinality({i \in DOMAIN st : st[i].video}), Cardinality({i \in DOMAIN st : ~st[i].video})>>) = TRUE
                        /\ UNCHANGED <<st, dir, opt>>
    [] e.op = "noname" -> opt' = [opt EXCEPT !.noname = TRUE] /\ UNCHANGED <<st, dir>>
    [] e.op = "prefix" -> opt' = [opt EXCEPT !.prefix = e.name] /\ UNCHANGED <<st, dir>>
    [] e.op = "protect" -> opt' = [opt EXCEPT !.protect = Append(@, [video |-> e.video, uri |-> e.uri])] /\ UNCHANGED <<st, dir>>
    [] e.op = "key" -> opt' = [opt EXCEPT !.key = e.name] /\ e.same /\ UNCHANGED <<st, dir>>
    [] e.op = "render" -> st' = Rebased(st) /\ Doc(e, Presented(st)) = TRUE /\ UNCHANGED <<dir, opt>>
    [] e.op = "rbegin" -> dir' = [duration |-> V(e.d), streams |-> <<>>] /\ UNCHANGED <<st, opt>>
    [] e.op = "rstream" -> dir' = [dir EXCEPT !.streams = Append(@, [name |-> e.name, video |-> e.video, rate |-> 0, channels |-> 0, bits |-> 0, rates |-> <<>>, chunks |-> <<>>])] /\ UNCHANGED <<st, opt>>
    [] e.op = "rvideo" -> dir' = [dir EXCEPT !.streams[Cur].rates = Append(@, [bitrate |-> V(e.bitrate), w |-> e.w, h |-> e.h, cpd |-> e.cpd])] /\ UNCHANGED <<st, opt>>
    [] e.op = "raudio" -> dir' = [dir EXCEPT !.streams[Cur] = [@ EXCEPT !.rates = Append(@, [bitrate |-> V(e.bitrate), w |-> 0, h |-> 0, cpd |-> <<>>]), !.rate = e.rate, !.channels = e.channels, !.bits = e.bits]] /\ UNCHANGED <<st, opt>>
    [] e.op = "rpoint" -> dir' = [dir EXCEPT !.streams[Cur].chunks = Append(@, [t |-> V(e.t), d |-> V(e.d), info |-> <<>>])] /\ UNCHANGED <<st, opt>>
    [] e.op = "rendstream" -> UNCHANGED <<st, dir, opt>>
    [] e.op = "rend" -> Doc(e, dir) = TRUE /\ UNCHANGED <<st, dir, opt>>
    [] e.op = "text" -> /\ LET v == V(e.v) IN
                           (IF BLt(v, Bias) THEN e.text = "-" \o HMS(BSub(Bias, v))
                            ELSE e.text = HMS(Un(v)) /\ e.f = Fields(Un(v)) /\ V(e.v2) = v) = TRUE
                        /\ UNCHANGED <<st, dir, opt>>
    [] e.op = "make" -> (V(e.v) = BAdd(Bias, BMul(BAdd(OfFields(e.f), BInt(e.f[4])), 10000))) = TRUE /\ UNCHANGED <<st, dir, opt>>
    [] OTHER -> FALSE
TInit == TraceInit /\ st = <<>> /\ dir = [duration |-> <<>>, streams |-> <<>>] /\ opt = [noname |-> FALSE, prefix |-> "video", protect |-> <<>>, key |-> ""]
TNext == Advance /\ Step(Ev)
TSpec == TInit /\ [][TNext]_vars
================================================================================
