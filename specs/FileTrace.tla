------------------------------ MODULE FileTrace ------------------------------
EXTENDS TraceBase, File
vars == <<tid, l, fvars>>
Step(e) ==
  CASE e.op = "call"  -> Call([f |-> e.f, k |-> e.k, x |-> e.x, a |-> IF Has(e, "a") THEN e.a ELSE "", n |-> e.n, m |-> e.m, e |-> e.e])
    [] e.op = "ret"   -> Ret(e.f, e.ex, e.r)
    [] e.op = "cb"    -> Cb(e.t, e.k, e.d, e.r)
    [] e.op = "cbend" -> CbEnd(e.t, e.k, e.ex)
    [] e.op = "er"    -> Er(e.t, e.k, e.e)
    [] e.op = "issue" -> Chain(e.t, e.k, e.x, e.n)
    [] e.op = "stopping" -> UNCHANGED fvars
    [] e.op = "content" -> Content(e.x, e.d)
    [] OTHER -> FALSE
TInit == TraceInit /\ FInit(T.init)
TNext == \/ Advance /\ Step(Ev)
         \/ l <= Len(T.ev) /\ dead = 0 /\ (\E k \in DOMAIN op : Die(k)) /\ UNCHANGED <<tid, l>>
TSpec == TInit /\ [][TNext]_vars
=============================================================================
