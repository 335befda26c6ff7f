------------------------------ MODULE LoopLife ------------------------------
(* The life of the loop thread: it runs the event loop under the loop's lock, *)
(* sleeps when there is nothing to do until it is called or some time has     *)
(* passed, and once told to stop handles everything still open and ends.      *)
(* Owners issue operations under the same lock; handlers may tell the loop to *)
(* stop; an owner may end the loop, which waits for the thread.               *)
EXTENDS Naturals, FiniteSets
CONSTANTS Ops,        \* operations the owner may issue
          Stoppers,   \* those whose handler tells the loop to stop
          Again       \* TRUE: the end is repeated while something is open (FALSE: once only)
VARIABLES pc, lock, open, ready, stopflag, exit, woken, outcome, ended, own
vars == <<pc, lock, open, ready, stopflag, exit, woken, outcome, ended, own>>
Init == /\ pc = "reset" /\ lock = "none" /\ open = {} /\ ready = {} /\ stopflag = FALSE
        /\ exit = FALSE /\ woken = FALSE /\ outcome = [o \in Ops |-> 0] /\ ended = FALSE /\ own = "idle"
\* the loop thread
T(from, to) == pc = from /\ pc' = to
Reset == T("reset", "enter") /\ woken' = FALSE /\ UNCHANGED <<lock, open, ready, stopflag, exit, outcome, ended, own>>
Enter == T("enter", "run") /\ lock = "none" /\ lock' = "loop" /\ UNCHANGED <<open, ready, stopflag, exit, woken, outcome, ended, own>>
\* one turn of the event loop: a completed operation's handler runs
Handle(at) == /\ pc = at /\ ~stopflag /\ pc' = at
              /\ \E o \in ready : /\ ready' = ready \ {o} /\ open' = open \ {o}
                                  /\ outcome' = [outcome EXCEPT ![o] = @ + 1]
                                  /\ stopflag' = (o \in Stoppers) /\ exit' = (exit \/ o \in Stoppers)
              /\ UNCHANGED <<lock, woken, ended, own>>
\* it returns when nothing is open or it was told to stop
RunEnds == /\ pc = "run" /\ (open = {} \/ stopflag) /\ lock' = "none" /\ stopflag' = FALSE
           /\ pc' = IF open = {} /\ ~exit THEN "sleep" ELSE "last"
           /\ UNCHANGED <<open, ready, exit, woken, outcome, ended, own>>
Sleep == T("sleep", "reset") /\ UNCHANGED <<lock, open, ready, stopflag, exit, woken, outcome, ended, own>>   \* called, or the time passed
Last == T("last", "drain") /\ lock = "none" /\ lock' = "loop" /\ UNCHANGED <<open, ready, stopflag, exit, woken, outcome, ended, own>>
DrainEnds == /\ pc = "drain" /\ (open = {} \/ stopflag) /\ stopflag' = FALSE
             /\ IF open = {} \/ ~Again THEN pc' = "done" /\ lock' = "none" ELSE pc' = "drain" /\ UNCHANGED lock
             /\ UNCHANGED <<open, ready, exit, woken, outcome, ended, own>>
Complete == \E o \in open \ ready : ready' = ready \cup {o} /\ UNCHANGED <<pc, lock, open, stopflag, exit, woken, outcome, ended, own>>
\* the owner: issues while nobody was told to stop, then ends the loop
Issue == /\ own = "idle" /\ ~exit /\ lock \in {"none", "loop"} /\ lock = "none"
         /\ \E o \in Ops : /\ outcome[o] = 0 /\ o \notin open /\ open' = open \cup {o}
                           /\ o \in Stoppers \/ TRUE
         /\ \A o \in open : o \notin Stoppers    \* nothing is issued once a handler may stop the loop
         /\ UNCHANGED <<pc, lock, ready, stopflag, exit, woken, outcome, ended, own>>
IssueBatch == /\ own = "idle" /\ ~exit /\ lock = "none" /\ open = {} /\ \A o \in Ops : outcome[o] = 0
              /\ open' = Ops /\ UNCHANGED <<pc, lock, ready, stopflag, exit, woken, outcome, ended, own>>
End == /\ own = "idle" /\ own' = "joining" /\ IF exit THEN UNCHANGED <<stopflag, exit>> ELSE stopflag' = TRUE /\ exit' = TRUE
       /\ UNCHANGED <<pc, lock, open, ready, woken, outcome, ended>>
Join == /\ own = "joining" /\ pc = "done" /\ own' = "over" /\ ended' = TRUE
        /\ UNCHANGED <<pc, lock, open, ready, stopflag, exit, woken, outcome>>
Loop == Reset \/ Enter \/ Handle("run") \/ RunEnds \/ Sleep \/ Last \/ Handle("drain") \/ DrainEnds
Next == Loop \/ Complete \/ Issue \/ IssueBatch \/ End \/ Join
Spec == Init /\ [][Next]_vars /\ WF_vars(Loop) /\ WF_vars(Complete) /\ WF_vars(Join)
\* when the loop was ended, everything issued had its outcome
EndedMeansDone == ended => open = {}
OnceOnly == \A o \in Ops : outcome[o] <= 1
EveryOutcome == \A o \in Ops : (o \in open) ~> (outcome[o] = 1)
EndReturns == (own = "joining") ~> (own = "over")
=============================================================================
