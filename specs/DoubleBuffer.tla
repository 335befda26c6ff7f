---------------------------- MODULE DoubleBuffer ----------------------------
(* How a bit stream reads: a current buffer, a shadow buffer filled by an    *)
(* asynchronous read of the storage whose data can be delivered at any later *)
(* moment, refills that move the shadow's data into the current buffer, and  *)
(* seeks that stay within the buffers when they can.                         *)
(* Unit i of the data has the value i.  Property: the reader sees exactly    *)
(* the plain sequence (Refines), and the end is only reported when what is   *)
(* asked for does not exist (EndIsTrue).                                     *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS MaxN, Sizes
VARIABLES n, b, buf, sh, cur, pos, pend, lp, want, got, eod
vars == <<n, b, buf, sh, cur, pos, pend, lp, want, got, eod>>

Min(x, y) == IF x < y THEN x ELSE y
Units(from, k) == [i \in 1..k |-> from + i - 1]
Eof == pos >= n
NoRead == -1

\* the storage's position advances when the read is issued, the data comes later
Issue(p, shadow) == IF p >= n THEN NoRead ELSE Min(b - Len(shadow), n - p)
After(p, r) == IF r = NoRead THEN p ELSE p + r

Load(q) == LET k  == Min(b, n - q)
               p1 == q + k
               r  == Issue(p1, <<>>)
           IN /\ buf' = Units(q, k) /\ sh' = <<>> /\ cur' = 0
              /\ pend' = r /\ pos' = After(p1, r)

Init == /\ n \in 0..MaxN /\ b \in Sizes
        /\ LET k  == Min(b, n)
               r  == IF k >= n THEN NoRead ELSE Min(b, n - k)
           IN /\ buf = Units(0, k) /\ pend = r /\ pos = (IF r = NoRead THEN k ELSE k + r)
        /\ sh = <<>> /\ cur = 0 /\ lp = 0 /\ want = 0 /\ got = <<>> /\ eod = 0

\* the storage calls back (the data of the read issued last: units pos-pend .. pos-1)
Deliver == /\ pend # NoRead
           /\ sh' = sh \o Units(pos - pend, pend)
           /\ pend' = NoRead
           /\ UNCHANGED <<n, b, buf, cur, pos, lp, want, got, eod>>

\* the user asks for k units
Ask(k) == /\ want = 0 /\ want' = k /\ got' = <<>> /\ eod' = 0
          /\ UNCHANGED <<n, b, buf, sh, cur, pos, pend, lp>>

Short == want > 0 /\ cur + want > Len(buf)

\* refill: waits for the read on its way unless the shadow is full
Fill == /\ Short /\ (Len(sh) = b \/ pend = NoRead)
        /\ IF sh = <<>> /\ Eof
           THEN /\ eod' = want /\ want' = 0
                /\ UNCHANGED <<n, b, buf, sh, cur, pos, pend, lp, got>>
           ELSE LET rem  == SubSeq(buf, cur + 1, Len(buf))
                    k    == Min(b - Len(rem), Len(sh))
                    rest == SubSeq(sh, k + 1, Len(sh))
                    r    == Issue(pos, rest)
                IN /\ buf' = rem \o SubSeq(sh, 1, k) /\ sh' = rest /\ cur' = 0
                   /\ pend' = r /\ pos' = After(pos, r)
                   /\ UNCHANGED <<n, b, lp, want, got, eod>>

Take == /\ want > 0 /\ ~Short
        /\ got' = SubSeq(buf, cur + 1, cur + want)
        /\ cur' = cur + want /\ lp' = lp + want /\ want' = 0
        /\ UNCHANGED <<n, b, buf, sh, pos, pend, eod>>

\* reposition: waits for the read on its way, because the position includes it
Seek(q) == /\ got' = <<>> /\ eod' = 0
           /\ want = 0 /\ pend = NoRead /\ q \in 0..n
           /\ LET bpos == pos - Len(sh)
                  kpos == bpos - Len(buf)
              IN IF kpos <= q /\ q <= bpos
                 THEN /\ cur' = q - kpos /\ lp' = q
                      /\ UNCHANGED <<n, b, buf, sh, pos, pend, want>>
                 ELSE IF bpos < q /\ q <= pos
                 THEN \* advance into the shadow
                      /\ cur' = Len(buf) /\ lp' = bpos /\ want' = q - bpos
                      /\ UNCHANGED <<n, b, buf, sh, pos, pend>>
                 ELSE /\ Load(q) /\ lp' = q /\ UNCHANGED <<n, b, want>>

Next == Deliver \/ (\E k \in 1..b : Ask(k)) \/ Fill \/ Take \/ (\E q \in 0..n : Seek(q))
Spec == Init /\ [][Next]_vars /\ WF_vars(Deliver) /\ WF_vars(Fill) /\ WF_vars(Take)

--------------------------------------------------------------------------------
Refines == /\ \A i \in 1..Len(buf) : buf[i] = lp - cur + i - 1
           /\ \A i \in 1..Len(sh)  : sh[i] = lp - cur + Len(buf) + i - 1
           /\ (got # <<>> => got = Units(lp - Len(got), Len(got)))
           /\ pos = lp - cur + Len(buf) + Len(sh) + (IF pend = NoRead THEN 0 ELSE pend)
TakenIsRight == [][Take => got' = Units(lp, want)]_vars
EndIsTrue == eod > 0 => lp + eod > n
Bounded == Len(buf) <= b /\ Len(sh) <= b /\ pos <= n /\ cur <= Len(buf)
\* every request is answered
Answered == want > 0 ~> want = 0
=============================================================================
