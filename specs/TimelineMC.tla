------------------------------ MODULE TimelineMC ------------------------------
(* How a DASH segment timeline is written: equal chunks that follow each other *)
(* are counted and written as one entry with a repetition; a chunk that leaves *)
(* a gap is written with its time. Small numbers, every sequence of chunks.    *)
EXTENDS Naturals, Sequences
CONSTANTS N, D, G, S
VARIABLES given, out, at, dur, cnt
vars == <<given, out, at, dur, cnt>>
\* entries [d, r, t]; t = -1 when it follows the one before
RECURSIVE Rep(_, _, _), Exp(_, _, _)
Rep(t, d, n) == IF n = 0 THEN <<>> ELSE <<<<t, d>>>> \o Rep(t + d, d, n - 1)
Exp(o, k, t) == IF k > Len(o) THEN <<>>
                ELSE LET s == IF o[k].t < 0 THEN t ELSE o[k].t IN Rep(s, o[k].d, o[k].r + 1) \o Exp(o, k + 1, s + o[k].d * (o[k].r + 1))
Flush(o) == IF cnt > 0 THEN Append(o, [d |-> dur, r |-> cnt - 1, t |-> 0 - 1]) ELSE o
Next0 == IF given = <<>> THEN 0 ELSE given[Len(given)][1] + given[Len(given)][2]
Point(t, d) ==
  /\ given' = Append(given, <<t, d>>)
  /\ LET o == IF t # at \/ d # dur THEN Flush(out) ELSE out
         c == IF t # at \/ d # dur THEN 0 ELSE cnt IN
     IF t # at THEN out' = Append(o, [d |-> d, r |-> 0, t |-> t]) /\ dur' = 0 /\ cnt' = 0
               ELSE out' = o /\ dur' = d /\ cnt' = c + 1
  /\ at' = t + d
Init == given = <<>> /\ out = <<>> /\ at = 0 /\ dur = 0 /\ cnt = 0
Next == Len(given) < N /\ \E d \in 1..D, g \in 0..G : Point(Next0 + g + (IF given = <<>> THEN S * g ELSE 0), d)
Spec == Init /\ [][Next]_vars
Faithful == Exp(Flush(out), 1, 0) = given
\* and no two entries could be one
Short == LET o == Flush(out) IN \A k \in 1..(Len(o) - 1) : o[k].t < 0 /\ o[k + 1].t < 0 => o[k].d # o[k + 1].d
===============================================================================
