------------------------------ MODULE TsReadTrace ------------------------------
(* What the library finds in a transport stream, packet by packet: the program *)
(* and every NAL unit and every AAC frame of it, with their times.             *)
EXTENDS TraceBase, Ts
S == INSTANCE Sps
VARIABLES pat,    \* <<>>, or the programs
          maps,   \* <<>>, or the program
          open,   \* of every PID the parts of the unit that is under way
          next,   \* of every PID the counter of its next packet
          free,   \* how much of what is in the first ones can be left out
          due,    \* of every PID what is in its whole units
          heard   \* of every PID what was reported
vars == <<tid, l, pat, maps, open, next, free, due, heard>>
At(f, x, d) == IF x \in DOMAIN f THEN f[x] ELSE d
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
\* ------------------------------------------------------------------ the contents of a unit
Starts(b) == SelectSeq([k \in 1..Len(b) |-> k], LAMBDA k : k + 2 <= Len(b) /\ b[k] = 0 /\ b[k + 1] = 0 /\ b[k + 2] = 1)
Cut(b, i, j) == IF j >= i /\ b[j] = 0 THEN SubSeq(b, i, j - 1) ELSE SubSeq(b, i, j)
Nals(b) == LET s == Starts(b) IN SelectSeq([k \in DOMAIN s |-> IF k = Len(s) THEN SubSeq(b, s[k] + 3, Len(b)) ELSE Cut(b, s[k] + 3, s[k + 1] - 1)], LAMBDA n : n # <<>>)
RECURSIVE Frames(_, _)
Frames(b, at) ==
  IF at + 6 > Len(b) THEN <<>>
  ELSE LET n == (b[at + 3] % 4) * 2048 + b[at + 4] * 8 + b[at + 5] \div 32
           h == IF b[at + 1] % 2 = 1 THEN 7 ELSE 9
           i == (b[at + 2] \div 4) % 16
           c == (b[at + 2] % 2) * 4 + b[at + 3] \div 64
       IN <<[object |-> b[at + 2] \div 64 + 1, rate |-> Rates[i + 1], channels |-> IF c = 7 THEN 8 ELSE c, d |-> SubSeq(b, at + h, at + n - 1)]>>
          \o Frames(b, at + n)
Contents(d) == LET p == Pes(d) IN
  IF p.bad THEN <<[kind |-> "bad"]>>
  ELSE IF p.id \div 16 = 14 THEN LET n == Nals(p.body) IN [k \in DOMAIN n |-> [kind |-> "nal", pts |-> p.pts, dts |-> p.dts, d |-> n[k]]]
  ELSE LET f == Frames(p.body, 1) IN [k \in DOMAIN f |-> [kind |-> "aac", pts |-> p.pts, dts |-> p.dts, f |-> f[k]]]
\* ------------------------------------------------------------------ packets
Size(d) == IF Len(d) < 6 THEN -1 ELSE IF d[5] * 256 + d[6] = 0 THEN -1 ELSE d[5] * 256 + d[6] + 6
ElementaryPids(m) == {m.streams[k][1] : k \in DOMAIN m.streams}
State == [pat |-> pat, maps |-> maps, open |-> open, next |-> next, free |-> free, due |-> due]
\* a unit without a length ends where the next one starts
Closed(s, pid) == LET d == At(s.open, pid, <<>>) IN
  IF d = <<>> THEN s
  ELSE LET c == IF Size(d) > Len(d) THEN <<>> ELSE Contents(d)
           \* pictures are of use from the first unit that has their parameters
           late == Len(At(s.due, pid, <<>>)) = At(s.free, pid, 0) /\ c # <<>> /\ c[1].kind = "nal" /\ \A k \in DOMAIN c : c[k].d = <<>> \/ c[k].d[1] % 32 # 7
       IN [s EXCEPT !.due = Put(@, pid, At(@, pid, <<>>) \o c), !.free = IF late THEN Put(@, pid, At(@, pid, 0) + Len(c)) ELSE @, !.open = Put(@, pid, <<>>)]
\* a packet that was sent twice, and the unit of which one was lost
Again(s, p) == p.pay /\ ~p.jump /\ p.pid \in DOMAIN s.next /\ p.cc = (s.next[p.pid] + 15) % 16
Kept(s, p) ==
  IF ~p.pay THEN s
  ELSE LET lost == ~p.jump /\ p.pid \in DOMAIN s.next /\ p.cc # s.next[p.pid]
           c == [s EXCEPT !.next = Put(@, p.pid, (p.cc + 1) % 16)]
       IN IF lost THEN [c EXCEPT !.open = Put(@, p.pid, <<>>)] ELSE c
Media(s, p) ==
  LET c == IF p.start THEN Closed(s, p.pid) ELSE s
      d == At(c.open, p.pid, <<>>) \o p.data
      o == [c EXCEPT !.open = Put(@, p.pid, d)]
  IN IF ~p.pay \/ (~p.start /\ At(c.open, p.pid, <<>>) = <<>>) THEN s
     ELSE IF Size(d) = Len(d) THEN Closed(o, p.pid) ELSE o
Table(s, p, id) ==
  LET b == At(s.open, p.pid, <<>>)
      d == (IF p.start THEN <<>> ELSE b) \o p.data
      x == Section(d)
      o == [s EXCEPT !.open = Put(@, p.pid, IF x = <<>> THEN d ELSE <<>>)]
  IN IF ~p.pay \/ (~p.start /\ b = <<>>) THEN s
     ELSE IF x = <<>> \/ ~GoodSection(x, id) THEN o
     ELSE IF id = 0 THEN [o EXCEPT !.pat = SelectSeq(Programs(x), LAMBDA g : g[1] # 0)]
     ELSE [o EXCEPT !.maps = <<Map(x)>>]
Taken(t, p) == IF Again(t, p) THEN t ELSE LET s == Kept(t, p) IN
  CASE p.pid = 0 -> Table(s, p, 0)
    [] p.pid = s.pat[1][2] -> Table(s, p, 2)
    [] OTHER -> Media(s, p)
Take(s, b) ==
  LET p == Packet(b) IN
  CASE p.bad -> s
    [] p.pid = 0 -> IF s.pat = <<>> THEN Taken(s, p) ELSE s
    [] s.pat = <<>> -> s
    [] p.pid = s.pat[1][2] -> IF s.maps = <<>> THEN Taken(s, p) ELSE s
    [] s.maps = <<>> -> s
    [] p.pid \in ElementaryPids(s.maps[1]) -> Taken(s, p)
    [] OTHER -> s
RECURSIVE TakeAll(_, _, _)
TakeAll(s, p, k) == IF k > Len(p) THEN s ELSE TakeAll(Take(s, p[k]), p, k + 1)
RECURSIVE CloseAll(_, _)
CloseAll(s, pids) == IF pids = {} THEN s ELSE LET x == CHOOSE x \in pids : TRUE IN CloseAll(Closed(s, x), pids \ {x})
\* ------------------------------------------------------------------ what was reported
RECURSIVE Hear(_, _, _)
Hear(h, u, k) == IF k > Len(u) THEN h ELSE Hear(Put(h, u[k].pid, Append(At(h, u[k].pid, <<>>), u[k])), u, k + 1)
\* 90 kHz as 100 ns, to one of them
Time(v, r) == IF v = <<>> THEN r = <<>>
              ELSE r # <<>> /\ LET x == BDiv(BMul(v[1], 1000), 9)
                                   y == BParts(r)
                               IN BLe(IF BLe(x, y) THEN BSub(y, x) ELSE BSub(x, y), BInt(1))
Is(w, r) == /\ w.kind = r.kind
            /\ Time(w.pts, r.pts) /\ Time(w.dts, r.dts)
            /\ IF w.kind = "nal" THEN r.d = w.d /\ r.n = Len(w.d) /\ w.d # <<>> /\ r.type = w.d[1] % 32
               ELSE r.d = w.f.d /\ r.object = w.f.object /\ r.rate = w.f.rate /\ r.channels = w.f.channels
Follows(h, s, all) ==
  \A x \in DOMAIN h \cup DOMAIN s.due :
    LET a == At(h, x, <<>>) b == At(s.due, x, <<>>)
    IN \E j \in 0..At(s.free, x, 0) : /\ IF all THEN Len(a) + j = Len(b) ELSE Len(a) + j <= Len(b)
                                     /\ \A k \in DOMAIN a : Is(b[j + k], a[k])
Program(s) == IF s.maps = <<>> THEN <<>> ELSE <<<<s.maps[1].program, s.maps[1].clock, s.maps[1].streams>>>>
Init == TraceInit /\ pat = <<>> /\ maps = <<>> /\ open = <<>> /\ next = <<>> /\ free = <<>> /\ due = <<>> /\ heard = <<>>
Step(s, h, all) == /\ pat' = s.pat /\ maps' = s.maps /\ open' = s.open /\ next' = s.next /\ free' = s.free /\ due' = s.due /\ heard' = h
              /\ Follows(h, s, all)
Next == /\ Advance
        /\ CASE Ev.op = "packets" -> LET s == TakeAll(State, Ev.p, 1) IN Step(s, Hear(heard, Ev.units, 1), FALSE) /\ (Ev.program = Program(s)) = TRUE
             [] Ev.op = "end" -> Step(CloseAll(State, DOMAIN open), Hear(heard, Ev.units, 1), TRUE)
             \* a unit without what keeps start codes out of it
             [] Ev.op = "nal" -> /\ Step(State, heard, FALSE)
                                 /\ (/\ Ev.d = <<Ev.n[1]>> \o S!Payload(Ev.n, 2, 0)
                                     /\ Ev.type = Ev.n[1] % 32 /\ Ev.ref = (Ev.n[1] \div 32) % 4) = TRUE
             [] OTHER -> FALSE
TSpec == Init /\ [][Next]_vars
===============================================================================
