----------------------------- MODULE QueueTrace ------------------------------
EXTENDS TraceBase
Threads == 0..5
VARIABLES q, pc
INSTANCE Queue
vars == <<tid, l, q, pc>>
Step(e) ==
  CASE e.op = "call" -> Call(e.t, e.f, e.id, e.n)
    [] e.op = "ret"  -> e.good = 1 /\ Ret(e.t, Res(e.st, e.id, e.n, e.out))
    [] OTHER -> FALSE
TInit == TraceInit /\ QInit
\* what happens between two returns may as well happen just before the next one
TNext == \/ Advance /\ Step(Ev)
         \/ l <= Len(T.ev) /\ Ev.op = "ret" /\ pc[Ev.t].p = "called" /\ (\E t \in Threads : Lin(t, T.kind, T.room, T.item)) /\ UNCHANGED <<tid, l>>
TSpec == TInit /\ [][TNext]_vars
=============================================================================
