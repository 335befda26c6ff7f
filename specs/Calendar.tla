------------------------------ MODULE Calendar ------------------------------
(* The calendar: the days and milliseconds before a date.                      *)
EXTENDS Naturals, Integers, Sequences, Big
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthDays(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
RECURSIVE Months(_, _)
Months(y, m) == IF m = 1 THEN 0 ELSE MonthDays(y, m - 1) + Months(y, m - 1)
\* days before the date since the first of January of the year 1
Days(y, m, d) == 365 * (y - 1) + ((y - 1) \div 4) - ((y - 1) \div 100) + ((y - 1) \div 400) + Months(y, m) + d - 1
Date(y, m, d, h, n, s, ms) == [y |-> y, m |-> m, d |-> d, h |-> h, n |-> n, s |-> s, ms |-> ms]
\* milliseconds since then
Milli(t) == BAdd(BMul(BAdd(BMul(BInt(Days(t.y, t.m, t.d)), 86400), BInt(t.h * 3600 + t.n * 60 + t.s)), 1000), BInt(t.ms))
Epoch == Milli(Date(1970, 1, 1, 0, 0, 0, 0))
\* whole units between two amounts, and which is the greater
Apart(a, b, unit) == [neg |-> BLt(a, b) /\ BDivBig(IF BLt(a, b) THEN BSub(b, a) ELSE BSub(a, b), unit) # <<>>, v |-> BDivBig(IF BLt(a, b) THEN BSub(b, a) ELSE BSub(a, b), unit)]
=============================================================================
