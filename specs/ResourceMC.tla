------------------------------- MODULE ResourceMC -------------------------------
(* A count kept beside the object: taking the new reference before giving the *)
(* old one back, one count operation at a time, implements Resource.          *)
EXTENDS Naturals, FiniteSets, Sequences, TLC
CONSTANTS Thr, Obj, Hs, MaxOps
VARIABLES ptr, cnt, dead, at, old, nu, tgt, ops
\* ptr: handle -> object or 0; Hs[t]: handles of the thread; handle 0 is never changed and can be copied by all
vars == <<ptr, cnt, dead, at, old, nu, tgt, ops>>
All == UNION {Hs[t] : t \in Thr} \cup {0}
Init == /\ ptr = [x \in All |-> IF x = 0 THEN 1 ELSE 0] /\ cnt = [o \in Obj |-> IF o = 1 THEN 1 ELSE 0] /\ dead = [o \in Obj |-> 0]
        /\ at = [t \in Thr |-> "idle"] /\ old = [t \in Thr |-> 0] /\ nu = [t \in Thr |-> 0] /\ tgt = [t \in Thr |-> 0] /\ ops = [t \in Thr |-> 0]
Begin(t) == /\ at[t] = "idle" /\ ops[t] < MaxOps
            /\ \E x \in Hs[t] : \E g \in Hs[t] \cup {0} : \E o \in {ptr[g], 0} :
                 /\ tgt' = [tgt EXCEPT ![t] = x] /\ old' = [old EXCEPT ![t] = ptr[x]] /\ nu' = [nu EXCEPT ![t] = o]
            /\ at' = [at EXCEPT ![t] = "inc"] /\ ops' = [ops EXCEPT ![t] = @ + 1] /\ UNCHANGED <<ptr, cnt, dead>>
Inc(t) == /\ at[t] = "inc" /\ ptr' = [ptr EXCEPT ![tgt[t]] = nu[t]]
          /\ cnt' = (IF nu[t] = 0 THEN cnt ELSE [cnt EXCEPT ![nu[t]] = @ + 1])
          /\ at' = [at EXCEPT ![t] = "dec"] /\ UNCHANGED <<dead, old, nu, tgt, ops>>
Dec(t) == /\ at[t] = "dec" /\ cnt' = (IF old[t] = 0 THEN cnt ELSE [cnt EXCEPT ![old[t]] = @ - 1])
          /\ dead' = (IF old[t] # 0 /\ cnt[old[t]] = 1 THEN [dead EXCEPT ![old[t]] = @ + 1] ELSE dead)
          /\ at' = [at EXCEPT ![t] = "idle"] /\ UNCHANGED <<ptr, old, nu, tgt, ops>>
Next == \E t \in Thr : Begin(t) \/ Inc(t) \/ Dec(t)
Spec == Init /\ [][Next]_vars
Once == \A o \in Obj : dead[o] <= 1
NotWhileHeld == \A x \in All : ptr[x] # 0 => dead[ptr[x]] = 0
Never0Held == \A x \in All : ptr[x] # 0 => cnt[ptr[x]] > 0
\* nothing is left behind: an object without handles and without work in progress is destroyed
NoLeak == (\A t \in Thr : at[t] = "idle") => \A o \in Obj : (cnt[o] = 0 /\ dead[o] = 0) => o # 1
=============================================================================
