--------------------------------- MODULE Sync ---------------------------------
(* Events, recursive locks and threads as their users see them.  A call takes *)
(* effect at one moment between its call and its return; a wait has two: it   *)
(* starts to wait, and it is released or gives up.                            *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
Threads == {1, 2, 3, 4, 11, 12}
Bodies  == {11, 12}
Stop(k) == 100 + k       \* told to stop
Over(k) == 200 + k       \* body has returned
Events  == {0, 1} \cup {Stop(k) : k \in Bodies} \cup {Over(k) : k \in Bodies}
Locks   == {0, 1}
VARIABLES sig,    \* event -> signaled?
          own,    \* lock -> <<owner or 0, depth>>
          th,     \* body -> "new" "started" "running" "ending" "over"
          pc      \* thread -> what it is doing
svars == <<sig, own, th, pc>>
Idle == [ph |-> "idle", f |-> "", o |-> 0, n |-> 0, r |-> FALSE]
SInit == /\ sig = [x \in Events |-> FALSE] /\ own = [x \in Locks |-> <<0, 0>>]
         /\ th = [k \in Bodies |-> "new"] /\ pc = [t \in Threads |-> Idle]
\* the event a call is about
Evt(t, f, o) == CASE f = "stop" -> Stop(o) [] f = "isdone" -> Over(o) [] f = "should" -> Stop(t) [] OTHER -> o
Waits == {"wait", "twait", "isdone", "should", "issig"}
Timed == {"twait", "isdone", "should", "issig"}
Call(t, f, o, n) == /\ pc[t].ph = "idle"
                    /\ pc' = [pc EXCEPT ![t] = [ph |-> "called", f |-> f, o |-> Evt(t, f, o), n |-> n, r |-> FALSE]]
                    /\ UNCHANGED <<sig, own, th>>
Return(t, r) == /\ pc[t].ph = "done" /\ pc[t].r = r
                /\ pc' = [pc EXCEPT ![t] = Idle] /\ UNCHANGED <<sig, own, th>>
Done(t, r) == [pc EXCEPT ![t].ph = "done", ![t].r = r]
\* everybody waiting for the event goes on, even if it is reset right after
Release(p, o) == [t \in Threads |-> IF p[t].ph = "in" /\ p[t].o = o THEN [p[t] EXCEPT !.ph = "done", !.r = TRUE] ELSE p[t]]
\* a thread that cannot go on, and rightly so
Blocked(t) == \/ pc[t].ph = "idle"
              \/ pc[t].ph = "in" /\ pc[t].f \notin Timed
              \/ pc[t].ph = "called" /\ pc[t].f = "lock" /\ own[pc[t].o][1] \notin {0, t}
              \/ pc[t].ph = "called" /\ pc[t].f = "join" /\ th[pc[t].o] \in {"started", "running", "ending"}
\* everybody else waits for something, be it for a time
Settled(t) == /\ \A u \in Threads \ {t} : Blocked(u) \/ pc[u].ph = "in" \/ (pc[u].ph = "called" /\ pc[u].f \in {"nap", "settle"})
              /\ \A k \in Bodies : th[k] \notin {"started", "ending"} /\ (th[k] = "running" /\ k # t => pc[k].ph # "idle")
Lin(t) ==
  LET f == pc[t].f  o == pc[t].o IN
  \/ /\ pc[t].ph = "called"
     /\ CASE f \in {"signal", "stop"} -> sig' = [sig EXCEPT ![o] = TRUE] /\ pc' = Release(Done(t, TRUE), o) /\ UNCHANGED <<own, th>>
          [] f = "reset"  -> sig' = [sig EXCEPT ![o] = FALSE] /\ pc' = Done(t, TRUE) /\ UNCHANGED <<own, th>>
          [] f \in Waits  -> pc' = (IF sig[o] THEN Done(t, TRUE) ELSE [pc EXCEPT ![t].ph = "in"]) /\ UNCHANGED <<sig, own, th>>
          [] f = "lock"   -> own[o][1] \in {0, t} /\ own' = [own EXCEPT ![o] = <<t, @[2] + 1>>] /\ pc' = Done(t, TRUE) /\ UNCHANGED <<sig, th>>
          [] f = "try"    -> IF own[o][1] \in {0, t} THEN own' = [own EXCEPT ![o] = <<t, @[2] + 1>>] /\ pc' = Done(t, TRUE) /\ UNCHANGED <<sig, th>>
                                                     ELSE pc' = Done(t, FALSE) /\ UNCHANGED <<sig, own, th>>
          [] f = "unlock" -> own[o][1] = t /\ own' = [own EXCEPT ![o] = IF @[2] = 1 THEN <<0, 0>> ELSE <<t, @[2] - 1>>]
                             /\ pc' = Done(t, TRUE) /\ UNCHANGED <<sig, th>>
          [] f = "start"  -> th[o] = "new" /\ th' = [th EXCEPT ![o] = "started"] /\ pc' = Done(t, TRUE) /\ UNCHANGED <<sig, own>>
          [] f = "join"   -> th[o] \in {"new", "over"} /\ pc' = Done(t, TRUE) /\ UNCHANGED <<sig, own, th>>
          [] f = "settle" -> Settled(t) /\ pc' = Done(t, TRUE) /\ UNCHANGED <<sig, own, th>>
          [] f = "nap"    -> pc' = Done(t, TRUE) /\ UNCHANGED <<sig, own, th>>
  \/ /\ pc[t].ph = "in" /\ f \in Timed        \* gives up
     /\ pc' = Done(t, FALSE) /\ UNCHANGED <<sig, own, th>>
Begin(k) == th[k] = "started" /\ th' = [th EXCEPT ![k] = "running"] /\ UNCHANGED <<sig, own, pc>>
End(k)   == th[k] = "running" /\ pc[k].ph = "idle" /\ th' = [th EXCEPT ![k] = "ending"] /\ UNCHANGED <<sig, own, pc>>
\* the body has returned, which is made known
Ended(k) == /\ th[k] = "ending" /\ th' = [th EXCEPT ![k] = "over"]
            /\ sig' = [sig EXCEPT ![Over(k)] = TRUE] /\ pc' = Release(pc, Over(k)) /\ UNCHANGED own
Internal == (\E t \in Threads : Lin(t)) \/ (\E k \in Bodies : Ended(k))
\* nobody can go on
StuckOk == (\A t \in Threads : Blocked(t)) /\ (\A k \in Bodies : th[k] \notin {"started", "ending"})
=============================================================================
