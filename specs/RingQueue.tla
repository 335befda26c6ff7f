------------------------------ MODULE RingQueue ------------------------------
(* The design of the queue: items one after the other on a block of N units,  *)
(* wrapping to the front when the end has no room, the front item first out.  *)
(* ring: the items held, oldest first, each with its place.  It refines Queue *)
(* (whose outcomes are allowed, items never overlap, nothing leaves the       *)
(* block, and bodies stay what they were).                                    *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Kind, N0, MaxLen, MaxItems, MaxN, Depth
VARIABLES N, ring, mem, next, hist, ok
vars == <<N, ring, mem, next, hist, ok>>
Q == INSTANCE Queue WITH Threads <- {}, q <- <<>>, pc <- <<>>
\* a unit of room per item besides the body
Sz(it) == it.n + 1
Last == ring[Len(ring)]
First == ring[1]
HeadSpace(r, n) == IF r = <<>> THEN n ELSE IF r[Len(r)].o < r[1].o THEN 0 ELSE r[1].o
TailSpace(r, n) == IF r = <<>> THEN 0
                   ELSE LET e == r[Len(r)] IN n - Sz(e) - e.o - (IF e.o < r[1].o THEN n - r[1].o ELSE 0)
Place(r, n, k) == IF TailSpace(r, n) >= k + 1 THEN r[Len(r)].o + Sz(r[Len(r)])
                  ELSE IF HeadSpace(r, n) >= k + 1 THEN 0 ELSE -1
Put(r, n, x) == Append(r, [id |-> x.id, n |-> x.n, o |-> Place(r, n, x.n)])
RECURSIVE Repack(_, _, _)
Repack(r, acc, n) == IF r = <<>> THEN acc ELSE Repack(Tail(r), Put(acc, n, Head(r)), n)
RECURSIVE Write(_, _, _, _)
Write(m, it, k, n) == IF k > it.n THEN m ELSE Write([m EXCEPT ![it.o + k] = it.id], it, k + 1, n)
Blank(n) == [i \in 0..(n - 1) |-> 0]
RECURSIVE Lay(_, _, _)
Lay(r, m, n) == IF r = <<>> THEN m ELSE Lay(Tail(r), Write(m, Head(r), 0, n), n)
RECURSIVE Shrink(_, _, _)
\* drop mode: the oldest goes until there is room or nothing left
Shrink(r, n, k) == IF r = <<>> \/ Place(r, n, k) >= 0 THEN r ELSE Shrink(Tail(r), n, k)
RECURSIVE Double(_, _, _)
Double(r, n, k) == IF Place(r, n, k) >= 0 THEN n ELSE Double(Repack(r, <<>>, 2 * n), 2 * n, k)
Abs(r) == [i \in 1..Len(r) |-> [id |-> r[i].id, n |-> r[i].n]]
Init == N = N0 /\ ring = <<>> /\ mem = Blank(N0) /\ next = 1 /\ hist = <<>> /\ ok = TRUE
Log(x) == hist' = IF Depth > 0 THEN Append(hist, x) ELSE <<>>
Push(k) ==
  LET x == [id |-> next, n |-> k]
      n2 == IF Kind = "grow" THEN Double(ring, N, k) ELSE N
      r1 == IF Kind = "grow" THEN (IF n2 = N THEN ring ELSE Repack(ring, <<>>, n2))
            ELSE IF Kind = "drop" THEN Shrink(ring, N, k) ELSE ring
      fits == Place(r1, n2, k) >= 0
      r2 == IF fits THEN Put(r1, n2, x) ELSE r1
  IN /\ Log(<<"push", k>>)
     /\ N' = n2 /\ ring' = r2
     /\ mem' = (IF n2 # N \/ Len(r1) # Len(ring) THEN Lay(r2, Blank(n2), n2) ELSE IF fits THEN Write(mem, r2[Len(r2)], 0, N) ELSE mem)
     /\ next' = IF ~fits THEN next ELSE IF next > MaxItems THEN 1 ELSE next + 1
     /\ ok' = (<<Abs(r2), IF fits THEN "ok" ELSE "no">> \in Q!PushOut(Kind, Abs(ring), x, N, 1))
Pop == /\ ring # <<>> /\ ring' = Tail(ring) /\ Log(<<"pop">>) /\ UNCHANGED <<N, next, ok>>
       /\ mem' = [i \in 0..(N - 1) |-> IF mem[i] = First.id THEN 0 ELSE mem[i]]
More == Depth = 0 \/ Len(hist) < Depth
Next == /\ More
        /\ \/ N <= MaxN /\ Len(ring) <= MaxItems /\ \E k \in 0..MaxLen : Push(k)
           \/ Pop
Spec == Init /\ [][Next]_vars
Allowed == ok
InBlock == \A i \in 1..Len(ring) : ring[i].o >= 0 /\ ring[i].o + Sz(ring[i]) <= N
Apart == \A i, j \in 1..Len(ring) : i # j => ring[i].o + Sz(ring[i]) <= ring[j].o \/ ring[j].o + Sz(ring[j]) <= ring[i].o
Whole == \A i \in 1..Len(ring) : \A k \in 0..ring[i].n : mem[ring[i].o + k] = ring[i].id
Emit == Depth > 0 /\ Len(hist) = Depth => PrintT(<<"SCRIPT", ToJson([kind |-> Kind, room |-> N0, h |-> hist])>>)
=============================================================================
