----------------------------- MODULE CopyTrace ------------------------------
EXTENDS TraceBase, Copy
VARIABLES dst, failed
vars == <<tid, l, dst, failed>>
Step(e) ==
  CASE e.op = "copy" /\ e.fault = 0 -> /\ CopyOk(dst, T.src[e.x + 1], e.a, e.b, e) /\ dst' = e.d /\ UNCHANGED failed
    [] e.op = "copy" /\ e.fault # 0 -> /\ CopyFailed(dst, T.src[e.x + 1], e.a, e.b, e) /\ dst' = e.d /\ failed' = e.fault
    [] e.op = "end" -> /\ e.ex \in {0, failed} /\ UNCHANGED <<dst, failed>>
    [] OTHER -> FALSE
TInit == TraceInit /\ dst = T.had /\ failed = 0
TNext == Advance /\ Step(Ev)
TSpec == TInit /\ [][TNext]_vars
=============================================================================
