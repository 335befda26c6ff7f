------------------------------- MODULE SyncTrace -------------------------------
EXTENDS TraceBase, Sync
vars == <<tid, l, sig, own, th, pc>>
Step(e) ==
  CASE e.op = "call"  -> Call(e.t, e.f, e.o, e.n)
    [] e.op = "ret"   -> Return(e.t, e.r) /\ ~e.early
    [] e.op = "begin" -> Begin(e.t)
    [] e.op = "end"   -> End(e.t)
    [] e.op = "stuck" -> StuckOk /\ UNCHANGED svars
    [] OTHER -> FALSE
TInit == TraceInit /\ SInit
TNext == \/ Advance /\ Step(Ev)
         \/ l <= Len(T.ev) /\ Internal /\ UNCHANGED <<tid, l>>
TSpec == TInit /\ [][TNext]_vars
=============================================================================
