---------------------------- MODULE CmdLineTrace ----------------------------
EXTENDS TraceBase, CmdLine
VARIABLE s
vars == <<tid, l, s>>
Is(i) == ParseInt(i)
Step(e) ==
  CASE e.op = "add"  -> IF e.t \in Names(s.d) THEN e.st = "err" /\ s' = s
                        ELSE /\ e.st = "ok"
                             /\ s' = [d |-> Append(s.d, [n |-> e.t, t |-> e.ty, q |-> e.rq = 1, k |-> e.sc]), v |-> Append(s.v, <<>>)]
    [] e.op = "proc" -> LET x == Args(s, e.a)
                            m == Missing(x)
                        IN /\ e.st = "ok" /\ s' = x
                           /\ e.r = (IF m = {} THEN 1 ELSE 0)
                           \* what is missing is named
                           /\ (m # {} => FindFrom(e.err, x.d[First(x.d, m)].n, 0) >= 0)
    [] e.op = "set"  -> /\ s' = [s EXCEPT !.v[CHOOSE i \in DOMAIN s.d : s.d[i].n = e.t][e.n + 1] = e.u]
                        /\ e.st = "ok"
    \* everything that can be asked about one parameter
    [] e.op = "ask"  -> LET v == ValuesOf(s, e.t)
                        IN /\ e.st = "ok" /\ s' = s
                           /\ e.vals = v /\ e.cnt = Len(v)
                           /\ \A i \in 1..3 : e.spec[i] = (IF Len(v) >= i THEN 1 ELSE 0)
                           /\ \A i \in 1..Len(v) : e.ints[i] = Is(v[i])
    [] e.op = "letters" -> /\ e.st = "ok" /\ s' = s
                           /\ IF e.a = <<>> THEN e.usage = 1 /\ e.calls = <<>>
                              ELSE LET c == Calls(e.a, <<0, <<>>>>, <<>>)
                                   IN /\ e.calls = SelectSeq(c, LAMBDA k : k.c # 63)
                                      /\ e.usage = Len(SelectSeq(c, LAMBDA k : k.c = 63))
                                      /\ e.help = (IF e.usage > 0 THEN 1 ELSE 0)
    [] OTHER -> FALSE
TInit == TraceInit /\ s = [d |-> <<>>, v |-> <<>>]
TNext == Advance /\ Step(Ev)
TSpec == TInit /\ [][TNext]_vars
=============================================================================
