------------------------------- MODULE TsTrace --------------------------------
(* Transport streams as the library writes them, sample by sample.            *)
EXTENDS TraceBase, Ts
VARIABLES streams,   \* what was added: kind, id, …
          cc,        \* counter of the next packet, of every PID
          pcr,       \* identifier of the stream with the clock, -1: none
          off,       \* what is added to times of presentation and decoding
          once,      \* tables are written only once
          wrote,     \* a sample was added
          base       \* HLS: where the segment begins, and when its first sample is decoded; <<>>: nowhere special
vars == <<tid, l, streams, cc, pcr, off, once, wrote, base>>
TablePid == 4096
Pid(id) == 256 + id
FirstVideo == LET v == {k \in DOMAIN streams : streams[k].kind = "video"} IN IF v = {} THEN -1 ELSE (CHOOSE k \in v : \A j \in v : k <= j) - 1
ClockPid == IF pcr >= 0 THEN Pid(pcr) ELSE IF FirstVideo >= 0 THEN Pid(FirstVideo) ELSE -1
TypeOf(s) == IF s.kind = "video" THEN 27 ELSE 15
Wanted == LET k == SelectSeq([j \in DOMAIN streams |-> j], LAMBDA j : streams[j].kind # "none") IN [j \in DOMAIN k |-> <<Pid(k[j] - 1), TypeOf(streams[k[j]])>>]
Init == TraceInit /\ streams = <<>> /\ cc = <<>> /\ pcr = -1 /\ off = <<BInt(2000000), <<>>>> /\ once = (T.mode = "hls") /\ wrote = FALSE /\ base = <<>>
Count(pid) == IF pid \in DOMAIN cc THEN cc[pid] ELSE 0
Counted(p) == [x \in DOMAIN cc \cup {p[k].pid : k \in DOMAIN p} |->
                 LET of == {k \in DOMAIN p : p[k].pid = x /\ p[k].pay} IN (Count(x) + Cardinality(of)) % 16]
Same == UNCHANGED <<streams, cc, pcr, off, once, wrote, base>>
Added(e, k) == /\ (e.id = Len(streams)) = TRUE
               /\ streams' = Append(streams, [kind |-> k, ev |-> e])
               /\ UNCHANGED <<cc, pcr, off, once, wrote, base>>
\* the tables: what the programs are, then what is in the program
Tables(p) ==
  /\ Len(p) >= 2
  /\ OneUnit(<<p[1]>>, 0, Count(0))
  /\ OneUnit(<<p[2]>>, TablePid, Count(TablePid))
  /\ LET a == Section(p[1].data)
         b == Section(p[2].data)
     IN /\ GoodSection(a, 0) /\ Len(a) >= 16 /\ Programs(a) = <<<<1, TablePid>>>>
        /\ GoodSection(b, 2) /\ Len(b) >= 16
        /\ LET m == Map(b) IN m.program = 1 /\ m.streams = Wanted /\ (ClockPid >= 0 => (m.clock = ClockPid))
\* where a sample is presented and decoded: a difference, for it may be before zero
Moved(t, o) == <<BAdd(IF base = <<>> THEN t ELSE BAdd(t, base[1]), o), <<>>>>
Unit(s, e, p) ==
  /\ OneUnit(p, Pid(e.s), Count(Pid(e.s)))
  /\ LET x == Pes(UnitData(p))
         pt == Moved(BParts(e.comp), off[1])
         dt == LET t == Moved(BParts(e.dec), off[2]) IN IF base = <<>> \/ e.s > 0 THEN t ELSE <<t[1], IF Len(base) > 1 THEN base[2] ELSE BParts(e.dec)>>
     IN /\ ~x.bad
        /\ Tells(x.pts, pt)
        /\ p[1].random = e.sync
        /\ \A k \in DOMAIN p : k > 1 => (~p[k].random /\ p[k].clock = <<>>)
        /\ IF s.kind = "video"
           THEN /\ x.id \in 224..239 /\ Tells(x.dts, dt)
                /\ x.body = Picture(e.sync, s.ev.sps, s.ev.pps, e.d)
                /\ (e.sync => (p[1].clock # <<>>))
           ELSE /\ x.id \in 192..223 /\ (x.dts # <<>> => Tells(x.dts, dt))
                /\ x.body = Adts(s.ev.object, s.ev.rate, s.ev.channels, Len(e.d[1])) \o e.d[1]
                /\ (pcr = e.s => (p[1].clock # <<>>))
        /\ (p[1].clock # <<>> => (p[1].clock[2] < 300 /\ Tells(<<p[1].clock[1]>>, dt)))
Add == LET e == Ev
           p == [k \in DOMAIN e.p |-> Packet(e.p[k])]
           s == streams[e.s + 1]
           must == ~wrote \/ (~once /\ e.s = FirstVideo /\ e.sync)
           has == p # <<>> /\ ~p[1].bad /\ p[1].pid = 0
       IN /\ (/\ \A k \in DOMAIN p : ~p[k].bad
              /\ (must => has)
              /\ (has => Tables(p))
              /\ LET r == IF has THEN SubSeq(p, 3, Len(p)) ELSE p
                 IN IF s.kind = "none" THEN r = <<>> ELSE Unit(s, e, r)) = TRUE
          /\ cc' = Counted(p)
          /\ wrote' = TRUE
          /\ base' = IF Len(base) = 1 /\ e.s = 0 THEN <<base[1], BParts(e.dec)>> ELSE base
          /\ UNCHANGED <<streams, pcr, off, once>>
\* after stuffing the next packet of every stream has the counter 0
Stuff == LET p == [k \in DOMAIN Ev.p |-> Packet(Ev.p[k])]
             ids == {Pid(k - 1) : k \in DOMAIN streams}
         IN /\ (\A k \in DOMAIN p : /\ ~p[k].bad /\ p[k].pid \in ids /\ p[k].data = <<>> /\ ~p[k].start
                                    /\ p[k].cc = (Count(p[k].pid) + Cardinality({j \in 1..(k - 1) : p[j].pid = p[k].pid})) % 16) = TRUE
            /\ cc' = Counted(p)
            /\ (\A x \in ids : x \in DOMAIN cc' => (cc'[x] = 0)) = TRUE
            /\ UNCHANGED <<streams, pcr, off, once, wrote, base>>
Next == /\ Advance
        /\ CASE Ev.op = "video" -> Added(Ev, "video")
             [] Ev.op = "audio" -> Added(Ev, "audio")
             [] Ev.op = "timecode" -> Added(Ev, "none")
             [] Ev.op = "pcr" -> pcr' = Ev.s /\ UNCHANGED <<streams, cc, off, once, wrote, base>>
             [] Ev.op = "offset" -> off' = <<BParts(Ev.p), BParts(Ev.d)>> /\ UNCHANGED <<streams, cc, pcr, once, wrote, base>>
             [] Ev.op = "once" -> once' = Ev.on /\ UNCHANGED <<streams, cc, pcr, off, wrote, base>>
             [] Ev.op = "continuity" -> cc' = [x \in DOMAIN cc \cup {0, TablePid} |-> IF x \in {0, TablePid} THEN Ev.c % 16 ELSE cc[x]] /\ UNCHANGED <<streams, pcr, off, once, wrote, base>>
             [] Ev.op = "base" -> base' = (IF T.mode = "hls" THEN <<BParts(Ev.t)>> ELSE <<>>) /\ UNCHANGED <<streams, cc, pcr, off, once, wrote>>
             [] Ev.op = "add" -> Add
             [] Ev.op = "stuff" -> Stuff
             [] OTHER -> FALSE
TSpec == Init /\ [][Next]_vars
===============================================================================
