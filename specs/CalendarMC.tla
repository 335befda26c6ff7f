----------------------------- MODULE CalendarMC -----------------------------
(* Day after day: the formula agrees with counting.                            *)
EXTENDS Calendar
CONSTANTS From, To
VARIABLES y, m, d, n
vars == <<y, m, d, n>>
Init == y = From /\ m = 1 /\ d = 1 /\ n = Days(From, 1, 1)
Next == /\ y <= To /\ n' = n + 1
        /\ IF d < MonthDays(y, m) THEN d' = d + 1 /\ UNCHANGED <<y, m>>
           ELSE d' = 1 /\ (IF m < 12 THEN m' = m + 1 /\ y' = y ELSE m' = 1 /\ y' = y + 1)
Spec == Init /\ [][Next]_vars
Counted == n = Days(y, m, d)
Known == /\ Days(1, 1, 1) = 0 /\ Days(1970, 1, 1) = 719162 /\ Days(1970, 1, 1) - Days(1904, 1, 1) = 24107 /\ Days(2000, 3, 1) - Days(2000, 2, 28) = 2 /\ Days(1900, 3, 1) - Days(1900, 2, 28) = 1
=============================================================================
