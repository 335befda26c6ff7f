--------------------------------- MODULE TsMC ---------------------------------
(* Units of two streams split into packets in any way, packets interleaved in *)
(* any way, some of them lost on the way: the reader gives back whole units   *)
(* or none, in order, and all of them when nothing is lost.                   *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Cap,      \* cells in a packet
          Modulus,  \* of the counters
          Lost,     \* packets lost at most: fewer than Modulus
          Longest, Units
Streams == {1, 2}
VARIABLES len,      \* of the units of every stream
          at,       \* <<unit, cells sent>> of every stream
          cc, got, want, ok, out, lost, whole
vars == <<len, at, cc, got, want, ok, out, lost, whole>>
Cell(u, k, n) == <<u, k, n>>
Unit(s, u) == [k \in 1..len[s][u] |-> Cell(u, k, len[s][u])]
Init == /\ len \in [Streams -> UNION {[1..u -> 1..Longest] : u \in 1..Units}]
        /\ at = [s \in Streams |-> <<1, 0>>]
        /\ cc = [s \in Streams |-> 0]
        /\ got = [s \in Streams |-> <<>>]
        /\ want = [s \in Streams |-> 0]
        /\ ok = [s \in Streams |-> FALSE]
        /\ out = [s \in Streams |-> <<>>]
        /\ whole = [s \in Streams |-> {}]      \* units that lost nothing
        /\ lost = 0
Left(s) == at[s][1] <= Len(len[s])
Packet(s, n) == [start |-> at[s][2] = 0, cc |-> cc[s], data |-> SubSeq(Unit(s, at[s][1]), at[s][2] + 1, at[s][2] + n)]
Sent(s, n, there) ==
  LET u == at[s][1]
      end == at[s][2] + n = len[s][u]
  IN /\ at' = [at EXCEPT ![s] = IF end THEN <<u + 1, 0>> ELSE <<u, @[2] + n>>]
     /\ cc' = [cc EXCEPT ![s] = (@ + 1) % Modulus]
     /\ whole' = [whole EXCEPT ![s] = IF ~there THEN @ \ {u} ELSE IF at[s][2] = 0 THEN @ \cup {u} ELSE @]
Receive(s, p) ==
  LET good == p.start \/ (ok[s] /\ p.cc = want[s])
      g == IF p.start THEN p.data ELSE got[s] \o p.data
      full == good /\ Len(g) = g[1][3]
  IN /\ want' = [want EXCEPT ![s] = (p.cc + 1) % Modulus]
     /\ ok' = [ok EXCEPT ![s] = good /\ ~full]
     /\ got' = [got EXCEPT ![s] = IF good /\ ~full THEN g ELSE <<>>]
     /\ out' = [out EXCEPT ![s] = IF full THEN Append(@, g) ELSE @]
Pass(s, n) == Sent(s, n, TRUE) /\ Receive(s, Packet(s, n)) /\ UNCHANGED <<len, lost>>
Lose(s, n) == lost < Lost /\ Sent(s, n, FALSE) /\ lost' = lost + 1 /\ UNCHANGED <<len, got, want, ok, out>>
Next == \E s \in Streams : Left(s) /\ \E n \in 1..Cap : at[s][2] + n <= len[s][at[s][1]] /\ (Pass(s, n) \/ Lose(s, n))
Spec == Init /\ [][Next]_vars
Whole == \A s \in Streams : \A k \in DOMAIN out[s] :
           /\ \E u \in DOMAIN len[s] : out[s][k] = Unit(s, u)
           /\ k > 1 => (out[s][k][1][1] > out[s][k - 1][1][1])
All == \A s \in Streams : {out[s][k][1][1] : k \in DOMAIN out[s]} = {u \in whole[s] : u < at[s][1]}
===============================================================================
