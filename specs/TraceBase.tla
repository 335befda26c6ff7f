------------------------------ MODULE TraceBase ------------------------------
(* What every trace specification shares: the recorded traces, which one is   *)
(* followed, and how far it has been followed.                                *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l
T == Traces[tid]
Ev == T.ev[l]
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ TLCSet(tid, 0)
\* what no specification allows: a crash, a hang, an exception nobody declared
Never == {"crash", "hang", "escaped"}
Advance == l <= Len(T.ev) /\ Ev.op \notin Never /\ l' = l + 1 /\ UNCHANGED tid
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Progress == TLCSet(tid, Max2(TLCGet(tid), l))
Report == \A t \in 1..Len(Traces) :
            TLCGet(t) > Len(Traces[t].ev) \/ PrintT(<<"REJECT", t, TLCGet(t)>>)
Has(r, f) == f \in DOMAIN r
=============================================================================
