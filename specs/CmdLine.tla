------------------------------- MODULE CmdLine -------------------------------
(* The two command line parsers.                                              *)
EXTENDS Text
Dash == 45   Colon == 58   Equal == 61
\* ---- named parameters: [-]-name[(:|=)value] --------------------------------
\* a declaration: [n name, t type "s" "i" "b", q required, k shortcut code or 0]
Names(d) == {d[i].n : i \in DOMAIN d}
Split(a) == LET c == FindFrom(a, <<Colon>>, 0)
                x == IF c >= 0 THEN c ELSE FindFrom(a, <<Equal>>, 0)
                b == IF Len(a) > 1 /\ a[2] = Dash THEN 2 ELSE 1
            IN IF x < 0 THEN [n |-> Cut(a, b, Len(a)), v |-> <<>>, given |-> FALSE]
               ELSE [n |-> SubSeq(a, b + 1, x), v |-> Cut(a, x + 1, Len(a)), given |-> TRUE]
\* the declared parameter a shortcut means: the first in the order of the names
ByShort(d, c) == {i \in DOMAIN d : d[i].k = c /\ c # 0}
First(d, S) == CHOOSE i \in S : \A j \in S : i = j \/ Less(d[i].n, d[j].n)
Resolve(d, x) == IF \E i \in DOMAIN d : d[i].n = x.n
                   THEN CHOOSE i \in DOMAIN d : d[i].n = x.n
                 ELSE IF Len(x.n) = 1 /\ ByShort(d, x.n[1]) # {} THEN First(d, ByShort(d, x.n[1]))
                 ELSE 0
Value(d, i, x) == IF ~x.given /\ i > 0 /\ d[i].t = "b" THEN <<84>> ELSE x.v
\* processing a list of arguments: declarations (with those met on the way) and values
RECURSIVE Args(_, _)
Args(st, as) ==
  IF as = <<>> THEN st
  ELSE LET a == Head(as)
       IN IF a = <<>> \/ Head(a) # Dash THEN Args(st, Tail(as))
          ELSE LET x == Split(a)
                   i == Resolve(st.d, x)
               IN IF i = 0
                  THEN Args([d |-> Append(st.d, [n |-> x.n, t |-> "s", q |-> FALSE, k |-> 0]),
                             v |-> Append(st.v, <<x.v>>)], Tail(as))
                  ELSE Args([st EXCEPT !.v[i] = Append(@, Value(st.d, i, x))], Tail(as))
Missing(st) == {i \in DOMAIN st.d : st.d[i].q /\ st.v[i] = <<>>}
ValuesOf(st, name) == IF name \in Names(st.d)
                      THEN st.v[CHOOSE i \in DOMAIN st.d : st.d[i].n = name] ELSE <<>>

\* ---- single letters: -x arg arg ... ----------------------------------------
Letter(c) == IF c \in 97..122 THEN c - 32 ELSE c
RECURSIVE Calls(_, _, _)
\* cur: the letter being collected (0: none yet, -1: none) and its arguments
Calls(as, cur, acc) ==
  LET done == IF cur[1] <= 0 THEN acc ELSE Append(acc, [c |-> Letter(cur[1]), a |-> cur[2]])
  IN IF as = <<>> THEN done
     ELSE LET a == Head(as)
          IN IF a # <<>> /\ Head(a) \in {45, 47}
             THEN Calls(Tail(as), <<IF Len(a) > 1 THEN a[2] ELSE -1, <<>>>>, done)
             ELSE Calls(Tail(as), <<cur[1], Append(cur[2], a)>>, acc)
=============================================================================
