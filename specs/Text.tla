-------------------------------- MODULE Text --------------------------------
(* Operations on text, as sequences of character codes; positions start at 0. *)
EXTENDS Naturals, Integers, Sequences
At(s, i, t) == i + Len(t) <= Len(s) /\ SubSeq(s, i + 1, i + Len(t)) = t
RECURSIVE FindFrom(_, _, _)
FindFrom(s, t, b) == IF b + Len(t) > Len(s) THEN -1
                     ELSE IF At(s, b, t) THEN b ELSE FindFrom(s, t, b + 1)
RECURSIVE LastFrom(_, _, _, _)
LastFrom(s, t, b, last) == LET f == FindFrom(s, t, b)
                           IN IF f = -1 THEN last ELSE LastFrom(s, t, f + 1, f)
Cut(s, b, n) == IF b >= Len(s) THEN <<>>
                ELSE SubSeq(s, b + 1, IF b + n > Len(s) THEN Len(s) ELSE b + n)
RECURSIVE Less(_, _)
Less(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
              ELSE IF Head(a) # Head(b) THEN Head(a) < Head(b) ELSE Less(Tail(a), Tail(b))
\* pieces of s between occurrences of the non-empty separator
RECURSIVE Pieces(_, _)
Pieces(s, sep) == LET f == FindFrom(s, sep, 0)
                  IN IF f = -1 THEN <<s>>
                     ELSE <<SubSeq(s, 1, f)>> \o Pieces(SubSeq(s, f + Len(sep) + 1, Len(s)), sep)
RECURSIVE Glue(_, _)
Glue(p, g) == IF Len(p) = 1 THEN p[1] ELSE p[1] \o g \o Glue(Tail(p), g)
Replace(s, new, old) == Glue(Pieces(s, old), new)
\* numbers
Space == {32, 9, 10, 11, 12, 13}
Digit == 48..57
RECURSIVE Trim(_)
Trim(s) == IF s # <<>> /\ Head(s) \in Space THEN Trim(Tail(s)) ELSE s
RECURSIVE Digits(_)
Digits(s) == IF s # <<>> /\ Head(s) \in Digit THEN <<Head(s)>> \o Digits(Tail(s)) ELSE <<>>
RECURSIVE NoZeros(_)
NoZeros(s) == IF Len(s) > 1 /\ Head(s) = 48 THEN NoZeros(Tail(s)) ELSE s
\* the canonical decimal text of the number a text starts with; <<>> when it starts with none
ParseInt(s0) == LET s == Trim(s0)
                    neg == s # <<>> /\ Head(s) = 45
                    sg == s # <<>> /\ Head(s) \in {43, 45}
                    d == Digits(IF sg THEN Tail(s) ELSE s)
                    n == NoZeros(d)
                IN IF d = <<>> THEN <<>> ELSE IF neg /\ n # <<48>> THEN <<45>> \o n ELSE n
HexChar(v) == IF v < 10 THEN 48 + v ELSE 55 + v
HexVal(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 65..70 THEN c - 55 ELSE c - 87
RECURSIVE HexText(_)
HexText(b) == IF b = <<>> THEN <<>> ELSE <<HexChar(Head(b) \div 16), HexChar(Head(b) % 16)>> \o HexText(Tail(b))
UnHex(s, start, n) == [i \in 1..n |-> 16 * HexVal(s[start + 2 * i - 1]) + HexVal(s[start + 2 * i])]
=============================================================================
