------------------------------ MODULE PromiseTrace ------------------------------
EXTENDS TraceBase, Promise
vars == <<tid, l, st, pc>>
Step(e) ==
  CASE e.op = "call" -> Call(e.t, e.f, e.p, e.a, e.b)
    [] e.op = "run"  -> Run(e.t, e.k, e.p, e.v)
    [] e.op = "ret"  -> Ret(e.t, e.ex)
    [] e.op = "has"  -> UNCHANGED pvars /\ e.r = (st[e.p].val # 0)
    [] OTHER -> FALSE
TInit == TraceInit /\ PInit
TNext == \/ Advance /\ Step(Ev)
         \/ l <= Len(T.ev) /\ (\E t \in Thr : Lin(t)) /\ UNCHANGED <<tid, l>>
TSpec == TInit /\ [][TNext]_vars
=============================================================================
