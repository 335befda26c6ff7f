----------------------------- MODULE ReadOrder -----------------------------
(* How reads completed in any order are delivered in the order of issue: a    *)
(* completion that comes early is kept until the ones before it were served.  *)
(* The operating system completes the operations of a file in any order; the  *)
(* loop thread handles one completion after another.                          *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS N,          \* operations on the file
          OwnCount    \* TRUE: reads are counted by themselves; FALSE: together with the writes
VARIABLES kind,       \* kind[i]: "read" or "write", i the order of issue
          seq,        \* the number each read waits for
          issued, os, \* how many are issued; those the operating system works on
          served,     \* what the numbers are compared with
          kept,       \* reads that came early, latest first
          out         \* what was delivered, in order
vars == <<kind, seq, issued, os, served, kept, out>>
Reads(n) == Cardinality({i \in 1..n : kind[i] = "read"})
Init == /\ kind \in [1..N -> {"read", "write"}] /\ seq = [i \in 1..N |-> 0]
        /\ issued = 0 /\ os = {} /\ served = 0 /\ kept = <<>> /\ out = <<>>
Issue == /\ issued < N /\ issued' = issued + 1 /\ os' = os \cup {issued + 1}
         /\ seq' = [seq EXCEPT ![issued + 1] = IF OwnCount THEN Reads(issued) ELSE issued]
         /\ UNCHANGED <<kind, served, kept, out>>
Remove(s, v) == SelectSeq(s, LAMBDA w : w # v)
\* one completion i handled with list k, count n and deliveries o: the new <<k, n, o>>
RECURSIVE Handle(_, _, _, _)
Serve(i, k, n, o) ==
  LET next == IF k = <<>> THEN 0 ELSE Head(k)
      k2 == IF k = <<>> THEN k ELSE Tail(k)
      n2 == IF OwnCount /\ kind[i] = "write" THEN n ELSE n + 1
      o2 == Append(o, i)
  IN IF next = 0 THEN <<k2, n2, o2>> ELSE Handle(next, k2, n2, o2)
Handle(i, k, n, o) ==
  IF kind[i] = "read" /\ seq[i] > n
  THEN LET k1 == <<i>> \o k
           due == {j \in 1..Len(k1) : seq[k1[j]] <= n}
       IN IF due = {} THEN <<k1, n, o>>
          ELSE LET j == CHOOSE a \in due : \A b \in due : a <= b
               IN Serve(k1[j], Remove(k1, k1[j]), n, o)
  ELSE Serve(i, k, n, o)
Complete == \E i \in os :
  LET r == Handle(i, kept, served, out) IN
  /\ os' = os \ {i} /\ kept' = r[1] /\ served' = r[2] /\ out' = r[3]
  /\ UNCHANGED <<kind, seq, issued>>
Next == Issue \/ Complete
Spec == Init /\ [][Next]_vars
\* reads are delivered in the order of issue, none twice
InOrder == \A a, b \in 1..Len(out) : a < b => out[a] # out[b] /\ (kind[out[a]] = "read" /\ kind[out[b]] = "read" => out[a] < out[b])
\* when the operating system has nothing left, everything was delivered
NothingKept == os = {} => Len(out) = issued
\* a read is held back only for an earlier one
NoNeedlessWait == \A i \in {kept[j] : j \in 1..Len(kept)} : \E b \in os : kind[b] = "read" /\ b < i
=============================================================================
