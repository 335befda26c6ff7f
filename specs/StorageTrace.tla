---------------------------- MODULE StorageTrace -----------------------------
EXTENDS TraceBase, Storage
VARIABLE s
vars == <<tid, l, s>>
Settled(e, x, n, k) == /\ e.ex = 0 /\ e.p = x.p /\ EndOk(T.kind, x, n, k, e.eof) /\ s' = x
Step(e) ==
  CASE e.op = "read"  -> e.times = 1 /\ e.d = Taken(s, e.n) /\ Settled(e, SRead(s, e.n), e.n, Len(e.d))
    [] e.op = "write" -> e.times = 1 /\ e.n = Len(e.d) /\ Settled(e, SWrite(s, e.d), 0, 0)
    [] e.op = "seek"  -> Settled(e, SSeek(s, e.n), 0, 0)
    [] e.op = "flush" -> Settled(e, s, 0, 0)
    [] e.op = "content" -> e.d = s.c /\ e.left = 0 /\ UNCHANGED s
    [] OTHER -> FALSE
TInit == TraceInit /\ s = [c |-> T.init, p |-> 0]
TNext == Advance /\ Step(Ev)
TSpec == TInit /\ [][TNext]_vars
=============================================================================
