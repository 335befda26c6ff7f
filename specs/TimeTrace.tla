------------------------------ MODULE TimeTrace ------------------------------
(* Dates: what they show, how far they are apart, and the present.             *)
EXTENDS TraceBase, Calendar
V(p) == BParts(p)
VARIABLE d        \* dates by number: the fields, and for the present the clock before and after
vars == <<tid, l, d>>
Dig(n, k) == 48 + ((n \div (10 ^ k)) % 10)
Two(n) == <<Dig(n, 1), Dig(n, 0)>>
Day(t) == <<Dig(t.y, 3), Dig(t.y, 2), Dig(t.y, 1), Dig(t.y, 0), 45>> \o Two(t.m) \o <<45>> \o Two(t.d)
Time(t) == Two(t.h) \o <<58>> \o Two(t.n) \o <<58>> \o Two(t.s)
Thousand(n) == <<Dig(n, 2), Dig(n, 1), Dig(n, 0)>>
\* distance from UTC in minutes
Abs(n) == IF n < 0 THEN 0 - n ELSE n
Zone(z) == IF z = 0 THEN <<90>> ELSE <<IF z < 0 THEN 45 ELSE 43>> \o Two(Abs(z) \div 60) \o <<58>> \o Two(Abs(z) % 60)
Xml(t, z) == Day(t) \o <<84>> \o Time(t) \o <<46>> \o Thousand(t.ms) \o Zone(z)
\* a date from text: as much as it says
N(s, i, k) == LET RECURSIVE go(_, _)
                  go(j, a) == IF j = k THEN a ELSE go(j + 1, a * 10 + s[i + j] - 48)
              IN go(0, 0)
Said(s) == Date(N(s, 1, 4), N(s, 6, 2), N(s, 9, 2), IF Len(s) >= 13 THEN N(s, 12, 2) ELSE 0, IF Len(s) >= 16 THEN N(s, 15, 2) ELSE 0,
                IF Len(s) >= 19 THEN N(s, 18, 2) ELSE 0, IF Len(s) >= 23 THEN N(s, 21, 3) ELSE 0)
Fields(f) == Date(f[1], f[2], f[3], f[4], f[5], f[6], f[7])
WeekDay(t) == (Days(t.y, t.m, t.d) + 1) % 7
TZ == T.tz
\* a clock: seconds and nanoseconds since 1970
Hnano(c) == BAdd(BSec(V(c[1])), BDivBig(V(c[2]), <<100>>))
Since(ms) == [neg |-> BLt(ms, Epoch), v |-> BMul(IF BLt(ms, Epoch) THEN BSub(Epoch, ms) ELSE BSub(ms, Epoch), 10000)]
\* what the clock of the wall shows: the moment moved by the distance from UTC
Wall(h, z) == LET ms == BAdd(BDivBig(h, <<0, 1>>), Epoch) w == BMul(BInt(Abs(z)), 60000) IN IF z < 0 THEN BSub(ms, w) ELSE BAdd(ms, w)
Sg(x) == [neg |-> x.neg, v |-> V(x.v)]
Diff(a, b, per) == [k \in 1..5 |-> Apart(a, b, BMul(<<<<1>>, <<1000>>, BInt(60000), BInt(3600000), BInt(86400000)>>[k], per))]
Step(e) ==
  CASE e.op = "date" -> d' = [d EXCEPT ![e.x] = [now |-> FALSE, f |-> Date(e.f[1], e.f[2], e.f[3], 0, 0, 0, 0), z |-> 0]]
    [] e.op = "parse" -> d' = [d EXCEPT ![e.x] = [now |-> FALSE, f |-> Said(e.t), z |-> IF e.local THEN TZ ELSE 0]]
    [] e.op = "now" -> LET f == Fields(e.f) z == IF e.local THEN TZ ELSE 0 h == V(e.total) IN
         /\ (/\ BLe(Hnano(e.a), h) /\ BLe(h, Hnano(e.b))
             /\ Milli(f) = Wall(h, z) /\ e.wd = WeekDay(f)) = TRUE
         /\ d' = [d EXCEPT ![e.x] = [now |-> TRUE, f |-> f, z |-> z, h |-> h]]
    [] e.op = "show" -> LET t == d[e.x] IN
         /\ (/\ e.date = Day(t.f) /\ e.time = Time(t.f) /\ e.ms = Thousand(t.f.ms) /\ e.xml = Xml(t.f, t.z) /\ e.off = t.z
             /\ Fields(e.f) = t.f
             /\ Sg(e.total) = (IF t.now THEN [neg |-> FALSE, v |-> t.h] ELSE Since(Milli(t.f)))
             /\ Sg(e.milli) = (IF t.now THEN [neg |-> FALSE, v |-> BDivBig(t.h, <<0, 1>>)] ELSE LET q == Since(Milli(t.f)) IN [neg |-> q.neg, v |-> BDivBig(q.v, <<0, 1>>)])) = TRUE
         /\ UNCHANGED d
    [] e.op = "format" -> LET t == d[e.x].f IN
         /\ (e.t = Two(t.d) \o <<47>> \o Two(t.m) \o <<47>> \o Two(t.y % 100) \o <<32>> \o Two(t.h) \o Two(t.n)) = TRUE
         /\ UNCHANGED d
    [] e.op = "diff" -> LET a == d[e.x] b == d[e.y]
                            whole(t) == BSub(Milli(t.f), BInt(t.f.ms))
                            p == IF a.now \/ b.now THEN <<whole(a), whole(b)>> ELSE <<Milli(a.f), Milli(b.f)>> IN
         \* the present against a date: whole seconds
         /\ ([k \in 1..5 |-> Sg(e.r[k])] = IF a.now /\ b.now THEN Diff(a.h, b.h, 10000) ELSE Diff(p[1], p[2], 1)) = TRUE
         /\ UNCHANGED d
    [] e.op = "elapsed" -> LET h == d[e.x].h IN
         /\ (/\ BLe(BSub(Hnano(e.a), h), V(e.r)) /\ BLe(V(e.r), BSub(Hnano(e.b), h))) = TRUE
         /\ UNCHANGED d
    [] OTHER -> FALSE
TInit == TraceInit /\ d = [i \in 1..4 |-> <<>>]
TNext == Advance /\ Step(Ev)
TSpec == TInit /\ [][TNext]_vars
==============================================================================
