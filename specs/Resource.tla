-------------------------------- MODULE Resource --------------------------------
(* Handles to shared objects: an object lives as long as a handle to it, then *)
(* its clean up function runs, then it is destroyed, once, by whoever dropped *)
(* the last handle.                                                           *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
Handles == 1..10
Thr == 0..4
VARIABLES h,      \* handle -> object or 0
          clean,  \* objects with a clean up function
          pc      \* thread -> call, what it still has to run
rvars == <<h, clean, pc>>
Idle == [ph |-> "idle", f |-> "", a |-> 0, b |-> 0, ev |-> <<>>]
RInit == h = [x \in Handles |-> 0] /\ clean = {} /\ pc = [t \in Thr |-> Idle]
Count(hh, o) == Cardinality({x \in Handles : hh[x] = o})
\* what dropping one handle to o runs, given the handles after it
Drop(hh, o) == IF o = 0 \/ Count(hh, o) > 0 THEN <<>> ELSE (IF o \in clean THEN <<<<"cleanup", o>>>> ELSE <<>>) \o <<<<"destroy", o>>>>
Set(t, x, o) == LET n == [h EXCEPT ![x] = o] IN h' = n /\ pc' = [pc EXCEPT ![t].ph = "done", ![t].ev = Drop(n, h[x])] /\ UNCHANGED clean
Call(t, f, a, b) == pc[t].ph = "idle" /\ pc' = [pc EXCEPT ![t] = [ph |-> "called", f |-> f, a |-> a, b |-> b, ev |-> <<>>]] /\ UNCHANGED <<h, clean>>
Lin(t) == /\ pc[t].ph = "called"
          /\ LET f == pc[t].f a == pc[t].a b == pc[t].b IN
             CASE f \in {"new", "create"} -> Set(t, a, b)
               [] f \in {"assign", "copy"} -> Set(t, a, h[b])
               [] f = "drop" -> Set(t, a, 0)
               [] f = "cleanup" -> clean' = clean \cup {h[a]} /\ pc' = [pc EXCEPT ![t].ph = "done"] /\ UNCHANGED h
               [] f \in {"use", "count"} -> pc' = [pc EXCEPT ![t].ph = "done"] /\ UNCHANGED <<h, clean>>
Run(t, k, o) == /\ pc[t].ph = "done" /\ pc[t].ev # <<>> /\ Head(pc[t].ev) = <<k, o>>
                /\ pc' = [pc EXCEPT ![t].ev = Tail(@)] /\ UNCHANGED <<h, clean>>
Alone(t) == \A u \in Thr \ {t} : pc[u].ph = "idle"
\* r: the object the handle shows, or the number of handles when nobody else is at work
Ret(t, r) == /\ pc[t].ph = "done" /\ pc[t].ev = <<>>
             /\ pc[t].f = "use" => r = h[pc[t].a]
             /\ pc[t].f = "count" /\ Alone(t) => r = (IF h[pc[t].a] = 0 THEN 0 ELSE Count(h, h[pc[t].a]))
             /\ pc' = [pc EXCEPT ![t] = Idle] /\ UNCHANGED <<h, clean>>
=============================================================================
