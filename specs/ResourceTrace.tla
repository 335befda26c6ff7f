------------------------------ MODULE ResourceTrace ------------------------------
EXTENDS TraceBase, Resource
vars == <<tid, l, h, clean, pc>>
Step(e) ==
  CASE e.op = "call" -> Call(e.t, e.f, e.a, e.b)
    [] e.op = "run"  -> Run(e.t, e.k, e.o)
    [] e.op = "ret"  -> Ret(e.t, e.r)
    [] OTHER -> FALSE
TInit == TraceInit /\ RInit
TNext == \/ Advance /\ Step(Ev)
         \/ l <= Len(T.ev) /\ (\E t \in Thr : Lin(t)) /\ UNCHANGED <<tid, l>>
TSpec == TInit /\ [][TNext]_vars
=============================================================================
