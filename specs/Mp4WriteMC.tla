------------------------------ MODULE Mp4WriteMC ------------------------------
(* How samples of several streams, added in any order, come to be stored in   *)
(* one file: each stream has a queue, and after each addition the streams are *)
(* visited in turn: what is due no more than a distance after the stream that *)
(* is least far is stored. When all streams wait and none can go, the limit   *)
(* is raised bit by bit. At the end all that is left is stored, the earliest  *)
(* first.                                                                     *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
CONSTANTS N, MaxT, Dist, Inc
VARIABLES t,        \* the times of each stream's samples, ascending
          added, kept,  \* of each stream, how many were added, and stored
          out,      \* what was stored, in order: <<stream, index>>
          lim,      \* the limit in use
          turn,     \* the stream to be visited, 0 when there is nothing to do
          some,     \* something was stored in this round
          over      \* no more will be added
vars == <<t, added, kept, out, lim, turn, some, over>>
Streams == 1..N
Ascending(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
Init == /\ t \in [Streams -> {Ascending(S) : S \in SUBSET (0..MaxT) \ {{}}}]
        /\ added = [s \in Streams |-> 0] /\ kept = [s \in Streams |-> 0] /\ out = <<>> /\ over = FALSE
        /\ lim = -1 - Dist /\ turn = 0 /\ some = FALSE
Waits(s) == kept[s] < added[s]
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Far(k) == LET S == {t[s][k[s]] : s \in {r \in Streams : k[r] > 0}} IN IF S = {} THEN -1 - Dist ELSE Least(S)
Add(s) == /\ ~over /\ turn = 0 /\ added[s] < Len(t[s])
          /\ added' = [added EXCEPT ![s] = @ + 1] /\ turn' = 1 /\ some' = FALSE /\ lim' = Far(kept)
          /\ UNCHANGED <<t, kept, out, over>>
Visit == /\ turn \in Streams
         /\ LET go == {k \in (kept[turn] + 1)..added[turn] : t[turn][k] <= lim + Dist} n == Cardinality(go) IN
            /\ kept' = [kept EXCEPT ![turn] = @ + n]
            /\ out' = out \o [i \in 1..n |-> <<turn, kept[turn] + i>>]
            /\ lim' = IF n > 0 THEN Far(kept') ELSE lim
            /\ some' = (some \/ n > 0)
         /\ turn' = turn + 1 /\ UNCHANGED <<t, added, over>>
Round == /\ turn = N + 1 /\ UNCHANGED <<t, added, kept, out, over>> /\ some' = FALSE
         /\ IF some THEN turn' = 1 /\ UNCHANGED lim
            ELSE IF \A s \in Streams : Waits(s) THEN turn' = 1 /\ lim' = lim + Inc
            ELSE turn' = 0 /\ UNCHANGED lim
End == /\ ~over /\ turn = 0 /\ \A s \in Streams : added[s] = Len(t[s])
       /\ over' = TRUE /\ UNCHANGED <<t, added, kept, out, lim, turn, some>>
Left == {s \in Streams : Waits(s)}
Flush(s) == /\ over /\ s \in Left /\ \A r \in Left : t[s][kept[s] + 1] <= t[r][kept[r] + 1]
            /\ out' = Append(out, <<s, kept[s] + 1>>) /\ kept' = [kept EXCEPT ![s] = @ + 1] /\ UNCHANGED <<t, added, lim, turn, some, over>>
Next == (\E s \in Streams : Add(s) \/ Flush(s)) \/ Visit \/ Round \/ End
Spec == Init /\ [][Next]_vars
Time(x) == t[x[1]][x[2]]
\* a stream's samples keep their order, none is stored twice
Order == \A i, j \in 1..Len(out) : i < j => out[i] # out[j] /\ (out[i][1] = out[j][1] => out[i][2] < out[j][2])
Together == \A i, j \in 1..Len(out) : i < j => Time(out[i]) <= Time(out[j]) + Dist + Inc
\* when all has been done, every sample was stored
All == (over /\ Left = {}) => \A s \in Streams : kept[s] = Len(t[s])
Ends == (~ENABLED Next) => over /\ \A s \in Streams : kept[s] = Len(t[s])
\* what waits does so for a stream that has yet to come
Prompt == (turn = 0 /\ ~over) => \E s \in Streams : ~Waits(s)
===============================================================================
