-------------------------------- MODULE CutMC --------------------------------
(* Cutting files into fragments. Pictures come one at a time and are cut at    *)
(* the first access point at which the length is full; sound is cut where the  *)
(* length is full, and what is left of a file ends in a fragment or waits for  *)
(* the next file. Every sample is in one fragment, in order.                   *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Long, Most, Files
VARIABLES pics,     \* the pictures so far: <<presented at, is an access point>>
          begin,    \* indices of the pictures that begin a fragment
          now, snd, frags, file, over
vars == <<pics, begin, now, snd, frags, file, over>>
N == Len(pics)
Init == pics = <<>> /\ begin = {} /\ now = 0 /\ snd = <<>> /\ frags = <<>> /\ file = 1 /\ over = FALSE
Latest(S) == CHOOSE x \in S : \A y \in S : y <= x
Picture == /\ ~over /\ N < Most
           /\ \E d \in 1..2, k \in BOOLEAN :
                /\ (begin = {} => k)
                /\ pics' = Append(pics, <<now, k>>) /\ now' = now + d
                /\ begin' = IF k /\ (begin = {} \/ now - pics[Latest(begin)][1] >= Long) THEN begin \cup {N + 1} ELSE begin
           /\ UNCHANGED <<snd, frags, file, over>>
RECURSIVE SumF(_)
SumF(q) == IF q = <<>> THEN 0 ELSE Len(Head(q)) + SumF(Tail(q))
Count == Len(snd) + SumF(frags)
Sound == /\ ~over /\ Count < Most
         /\ LET q == Append(snd, Count + 1) IN
            IF Len(q) = Long THEN frags' = Append(frags, q) /\ snd' = <<>> ELSE snd' = q /\ frags' = frags
         /\ UNCHANGED <<pics, begin, now, file, over>>
\* what is left joins the last fragment, is one of its own, or waits
Rest == IF snd = <<>> THEN {<<frags, snd>>}
        ELSE {<<Append(frags, snd), <<>>>>} \cup (IF frags = <<>> THEN {} ELSE {<<SubSeq(frags, 1, Len(frags) - 1) \o <<frags[Len(frags)] \o snd>>, <<>>>>})
EndFile == /\ ~over
           /\ \E r \in (IF file < Files THEN Rest \cup {<<frags, snd>>} ELSE Rest) : frags' = r[1] /\ snd' = r[2]
           /\ over' = (file = Files) /\ file' = file + 1
           /\ UNCHANGED <<pics, begin, now>>
Next == Picture \/ Sound \/ EndFile
Spec == Init /\ [][Next]_vars
\* the rule of the trace specification, over the whole file
RECURSIVE Greedy(_, _)
Greedy(at, i) == IF i > N THEN {}
                 ELSE IF pics[i][2] /\ (at = <<>> \/ at[1] + Long <= pics[i][1]) THEN {i} \cup Greedy(<<pics[i][1]>>, i + 1) ELSE Greedy(at, i + 1)
AtAccess == \A i \in begin : pics[i][2]
AsRuled == begin = Greedy(<<>>, 1)
NoLater == \A i \in begin, j \in 1..N : (j > i /\ pics[j][2] /\ pics[j][1] - pics[i][1] >= Long) => \E c \in begin : c > i /\ c <= j
NoSooner == \A i, j \in begin : i < j => pics[j][1] - pics[i][1] >= Long
RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Cat(Tail(q))
Once == LET c == Cat(frags) \o snd IN c = [i \in 1..Len(c) |-> i]
Nothing == over => snd = <<>>
Sizes == \A i \in 1..Len(frags) : frags[i] # <<>> /\ Len(frags[i]) < (IF Files > 1 THEN 3 ELSE 2) * Long
=============================================================================
