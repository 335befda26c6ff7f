--------------------------------- MODULE Big ---------------------------------
(* Natural numbers beyond TLC's 32 bits: sequences of digits to the base      *)
(* 10^4, least significant first, no leading zero; zero is <<>>.              *)
EXTENDS Naturals, Integers, Sequences
LOCAL BB == 10000
RECURSIVE BInt(_), BAddC(_, _, _), BMulC(_, _, _), BCmpAt(_, _, _), BDivAt(_, _, _, _), BSubC(_, _, _)
BTrim(a) == IF a = <<>> \/ a[Len(a)] # 0 THEN a ELSE LET n == CHOOSE n \in 0..Len(a) : (n = 0 \/ a[n] # 0) /\ \A k \in (n + 1)..Len(a) : a[k] = 0 IN SubSeq(a, 1, n)
BInt(n) == IF n = 0 THEN <<>> ELSE <<n % BB>> \o BInt(n \div BB)
BDig(a, k) == IF k <= Len(a) THEN a[k] ELSE 0
LOCAL BMax(a, b) == IF a > b THEN a ELSE b
BAddC(a, b, c) == IF a = <<>> /\ b = <<>> THEN (IF c = 0 THEN <<>> ELSE <<c>>)
                  ELSE LET s == BDig(a, 1) + BDig(b, 1) + c IN
                       <<s % BB>> \o BAddC(IF a = <<>> THEN a ELSE Tail(a), IF b = <<>> THEN b ELSE Tail(b), s \div BB)
BAdd(a, b) == BAddC(a, b, 0)
\* a times k plus c, for k up to 200000
BMulC(a, k, c) == IF a = <<>> THEN BInt(c) ELSE LET p == a[1] * k + c IN <<p % BB>> \o BMulC(Tail(a), k, p \div BB)
BMul(a, k) == BTrim(BMulC(a, k, 0))
BCmpAt(a, b, k) == IF k = 0 THEN 0 ELSE IF a[k] # b[k] THEN (IF a[k] < b[k] THEN -1 ELSE 1) ELSE BCmpAt(a, b, k - 1)
BCmp(a, b) == IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1) ELSE BCmpAt(a, b, Len(a))
BLe(a, b) == BCmp(a, b) <= 0
BLt(a, b) == BCmp(a, b) < 0
BSubC(a, b, c) == IF a = <<>> THEN <<>> ELSE LET s == a[1] - BDig(b, 1) - c IN
                  <<IF s < 0 THEN s + BB ELSE s>> \o BSubC(Tail(a), IF b = <<>> THEN b ELSE Tail(b), IF s < 0 THEN 1 ELSE 0)
BSub(a, b) == BTrim(BSubC(a, b, 0))     \* b at most a
\* quotient, for a divisor up to 200000
BDivAt(a, d, k, r) == IF k = 0 THEN <<>> ELSE LET x == r * BB + a[k] IN BDivAt(a, d, k - 1, x % d) \o <<x \div d>>
BDiv(a, d) == BTrim(BDivAt(a, d, Len(a), 0))
\* quotient by any divisor, by long division on decimal digits of the quotient
RECURSIVE BDigitQ(_, _, _), BLongAt(_, _, _, _)
BDigitQ(r, d, q) == IF BLt(r, d) THEN <<q, r>> ELSE BDigitQ(BSub(r, d), d, q + 1)
BLongAt(a, d, k, r) == IF k = 0 THEN <<>>
                       ELSE LET x == BDigitQ(BAdd(BMul(r, 10), BInt((BDig(a, ((k - 1) \div 4) + 1) \div (CASE (k - 1) % 4 = 0 -> 1 [] (k - 1) % 4 = 1 -> 10 [] (k - 1) % 4 = 2 -> 100 [] OTHER -> 1000)) % 10)), d, 0)
                            IN BLongAt(a, d, k - 1, x[2]) \o <<x[1]>>
LOCAL BPack(q) == [k \in 1..((Len(q) + 3) \div 4) |-> BDig(q, 4 * k - 3) + 10 * BDig(q, 4 * k - 2) + 100 * BDig(q, 4 * k - 1) + 1000 * BDig(q, 4 * k)]
BDivBig(a, d) == IF Len(d) = 1 THEN BDiv(a, d[1]) ELSE BTrim(BPack(BLongAt(a, d, 4 * Len(a), <<>>)))
\* 32 bits from four bytes; 64 bits from the four 16 bit parts of a recorded value
BU32(b1, b2, b3, b4) == BAdd(BMul(BInt(b1 * 256 + b2), 65536), BInt(b3 * 256 + b4))
BParts(p) == BAdd(BMul(BAdd(BMul(BAdd(BMul(BInt(p[1]), 65536), BInt(p[2])), 65536), BInt(p[3])), 65536), BInt(p[4]))
BNat(a) == IF a = <<>> THEN 0 ELSE IF Len(a) = 1 THEN a[1] ELSE IF Len(a) = 2 THEN a[1] + 10000 * a[2] ELSE a[1] + 10000 * a[2] + 100000000 * a[3]   \* below 2^31
\* times 10^7
BSec(a) == BMul(BMul(a, 10000), 1000)
==============================================================================
