------------------------------- MODULE JoinMC -------------------------------
(* Joining parts whose streams begin and end at times of their own. The code   *)
(* works with differences to the latest end and the earliest beginning; what   *)
(* it must come to: distances within a part are kept, no stream goes back, and *)
(* one stream goes on at once.                                                 *)
EXTENDS Integers, FiniteSets
CONSTANTS Streams, Most, Parts
VARIABLES ends, n, part, at      \* where the streams end; the last part and where its streams were put; before is in old
VARIABLE old
vars == <<ends, n, part, at, old>>
Part == {p \in [Streams -> (0..Most) \X (0..Most)] : \A s \in Streams : p[s][1] < p[s][2]}
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
\* as it is computed
MaxEnd == Max({ends[s] : s \in Streams})
MinStart(p) == Min({p[s][1] : s \in Streams})
Diff(p, s) == (ends[s] - MaxEnd) + (MinStart(p) - p[s][1])
Least(p) == Max({Diff(p, s) : s \in Streams})
JoinTime(p, s) == IF n = 0 THEN p[s][1] ELSE ends[s] + (Least(p) - Diff(p, s))
Init == ends = [s \in Streams |-> 0] /\ n = 0 /\ part = [s \in Streams |-> <<0, 0>>] /\ at = [s \in Streams |-> 0] /\ old = [s \in Streams |-> 0]
Next == n < Parts /\ \E p \in Part :
          /\ n' = n + 1 /\ part' = p /\ old' = ends
          /\ at' = [s \in Streams |-> JoinTime(p, s)]
          /\ ends' = [s \in Streams |-> JoinTime(p, s) + p[s][2] - p[s][1]]
Spec == Init /\ [][Next]_vars
InStep == \A s, r \in Streams : at[s] - at[r] = part[s][1] - part[r][1]
NoneBack == n > 1 => \A s \in Streams : at[s] >= old[s]
AtOnce == n > 1 => \E s \in Streams : at[s] = old[s]
=============================================================================
