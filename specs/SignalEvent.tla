------------------------------ MODULE SignalEvent ------------------------------
(* An event made of a lock, a condition and a count of how often it became    *)
(* signaled: what each thread does between its call and its return.           *)
EXTENDS Naturals, FiniteSets, TLC
CONSTANTS Thr, MaxCalls, NONE
VARIABLES flag, count, lock, at, f, my, res, out, calls
\* at: "idle" "want" (the lock) "in" (holds it) "asleep" "again" (woken, wants the lock) "post" (woken, holds it) "leave" (holds it, result known) "out" (released)
ivars == <<flag, count, lock, at, f, my, res, out, calls>>
IInit == /\ flag = FALSE /\ count = 0 /\ lock = NONE
         /\ at = [t \in Thr |-> "idle"] /\ f = [t \in Thr |-> "none"] /\ my = [t \in Thr |-> 0]
         /\ res = [t \in Thr |-> FALSE] /\ out = [t \in Thr |-> FALSE] /\ calls = [t \in Thr |-> 0]
Call(t) == /\ at[t] = "idle" /\ calls[t] < MaxCalls
           /\ \E g \in {"wait", "twait", "signal", "reset"} :
                /\ f' = [f EXCEPT ![t] = g] /\ at' = [at EXCEPT ![t] = "want"]
                /\ calls' = [calls EXCEPT ![t] = @ + 1] /\ out' = [out EXCEPT ![t] = FALSE]
                /\ UNCHANGED <<flag, count, lock, my, res>>
Take(t) == /\ at[t] \in {"want", "again"} /\ lock = NONE /\ lock' = t
           /\ at' = [at EXCEPT ![t] = IF @ = "want" THEN "in" ELSE "post"]
           /\ my' = [my EXCEPT ![t] = IF at[t] = "want" THEN count ELSE @]
           /\ UNCHANGED <<flag, count, f, res, out, calls>>
Leave(t, r) == at' = [at EXCEPT ![t] = "leave"] /\ res' = [res EXCEPT ![t] = r]
InSignal(t) == /\ at[t] = "in" /\ f[t] = "signal"
               /\ IF flag THEN at' = [at EXCEPT ![t] = "leave"] /\ UNCHANGED <<flag, count>>
                  ELSE /\ flag' = TRUE /\ count' = count + 1     \* and everybody asleep is woken
                       /\ at' = [u \in Thr |-> IF u = t THEN "leave" ELSE IF at[u] = "asleep" THEN "again" ELSE at[u]]
               /\ res' = [res EXCEPT ![t] = TRUE] /\ UNCHANGED <<lock, f, my, out, calls>>
InReset(t) == /\ at[t] = "in" /\ f[t] = "reset" /\ flag' = FALSE /\ Leave(t, TRUE) /\ UNCHANGED <<count, lock, f, my, out, calls>>
\* looks at the flag and the count; sleeps and gives the lock away in one step
Look(t) == /\ at[t] \in {"in", "post"} /\ f[t] \in {"wait", "twait"}
           /\ IF flag \/ my[t] # count THEN Leave(t, TRUE) /\ UNCHANGED lock
              ELSE \/ at' = [at EXCEPT ![t] = "asleep"] /\ lock' = NONE /\ UNCHANGED res
                   \/ f[t] = "twait" /\ out[t] /\ Leave(t, FALSE) /\ UNCHANGED lock
           /\ UNCHANGED <<flag, count, f, my, out, calls>>
Wake(t) == /\ at[t] = "asleep" /\ at' = [at EXCEPT ![t] = "again"]     \* for no reason, or because the time is over
           /\ (f[t] = "wait" => UNCHANGED out) /\ (f[t] = "twait" => out' = [out EXCEPT ![t] = TRUE])
           /\ UNCHANGED <<flag, count, lock, f, my, res, calls>>
Give(t) == /\ at[t] = "leave" /\ lock' = NONE /\ at' = [at EXCEPT ![t] = "out"] /\ UNCHANGED <<flag, count, f, my, res, out, calls>>
Ret(t) == /\ at[t] = "out" /\ at' = [at EXCEPT ![t] = "idle"] /\ UNCHANGED <<flag, count, lock, f, my, res, out, calls>>
INext == \E t \in Thr : Call(t) \/ Take(t) \/ InSignal(t) \/ InReset(t) \/ Look(t) \/ Wake(t) \/ Give(t) \/ Ret(t)
ISpec == IInit /\ [][INext]_ivars
\* a sleeping waiter is never one that was released
NoLostWakeup == \A t \in Thr : at[t] = "asleep" => ~flag /\ my[t] = count
MutualExclusion == Cardinality({t \in Thr : at[t] \in {"in", "post", "leave"}}) <= 1
=============================================================================
