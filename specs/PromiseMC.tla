------------------------------- MODULE PromiseMC -------------------------------
(* Every order of registering handlers and delivering, by up to four threads, *)
(* one call each: a value runs its handler exactly once, an error is handled  *)
(* exactly once, kept, or leaves the call that caused it.                     *)
EXTENDS Promise, FiniteSets
VARIABLES todo, runs, left      \* calls not yet made; handlers run; errors that left a call
mvars == <<st, pc, todo, runs, left>>
Ops == { [f |-> "setcb", p |-> p, a |-> a, b |-> 50 + p] : p \in 1..2, a \in {"ok", "throw"} }
  \cup { [f |-> "seter", p |-> p, a |-> a, b |-> 0] : p \in 1..2, a \in {"go", "stop", "rethrow", "silent"} }
  \cup { [f |-> "callcb", p |-> 1, a |-> "x", b |-> 7], [f |-> "caller", p |-> 1, a |-> "x", b |-> 9] }
Compatible(S) == \A x, y \in S : (x.f = y.f /\ x.p = y.p) => x = y
MCInit == /\ pc = [t \in Thr |-> Idle]
          /\ \E fw \in {0, 2} : st = [p \in Promises |-> IF p = 1 THEN [Fresh EXCEPT !.fwd = fw] ELSE Fresh]
          /\ \E S \in SUBSET Ops : /\ Cardinality(S) <= 4 /\ Compatible(S)
                                   /\ ~([f |-> "callcb", p |-> 1, a |-> "x", b |-> 7] \in S /\ [f |-> "caller", p |-> 1, a |-> "x", b |-> 9] \in S)
                                   /\ todo = S
          /\ runs = <<>> /\ left = {}
Start(t) == \E o \in todo : Call(t, o.f, o.p, o.a, o.b) /\ todo' = todo \ {o} /\ UNCHANGED <<runs, left>>
Inner(t) == Lin(t) /\ UNCHANGED <<todo, runs, left>>
Handler(t) == \E k \in {"cb", "er"}, p \in Promises, v \in {7, 9, 51, 52} : Run(t, k, p, v) /\ runs' = Append(runs, <<k, p, v>>) /\ UNCHANGED <<todo, left>>
Finish(t) == \E x \in {0, 7, 9, 51, 52} : Ret(t, x) /\ left' = (IF x = 0 THEN left ELSE left \cup {x}) /\ UNCHANGED <<todo, runs>>
Done == todo = {} /\ (\A t \in Thr : pc[t].ph = "idle") /\ UNCHANGED mvars
MCNext == (\E t \in 1..3 : Start(t) \/ Inner(t) \/ Handler(t) \/ Finish(t)) \/ Done
MCSpec == MCInit /\ [][MCNext]_mvars
Quiet == todo = {} /\ \A t \in Thr : pc[t].ph = "idle"
Times(r) == Cardinality({i \in DOMAIN runs : runs[i] = r})
Kept(e) == \E p \in Promises : st[p].err = e
AtMostOnce == \A i, j \in DOMAIN runs : runs[i] = runs[j] => i = j
\* the value met its handler
Delivered == Quiet => \A p \in 1..2 : (st[p].cb # None /\ st[p].val # 0) => Times(<<"cb", p, st[p].val>>) = 1
\* the error a handler threw was handled, kept for a handler, or left the call
NoErrorLost == Quiet => \A i \in DOMAIN runs : runs[i][1] = "cb" /\ st[runs[i][2]].cb[1] = "throw" =>
                 LET e == st[runs[i][2]].cb[2] IN Kept(e) \/ e \in left \/ \E p \in Promises : Times(<<"er", p, e>>) = 1
\* nobody is stuck: TLC's deadlock check
=============================================================================
