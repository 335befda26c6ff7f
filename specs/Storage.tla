------------------------------- MODULE Storage -------------------------------
(* A storage is a sequence of bytes and a position.  Reading delivers the     *)
(* bytes from the position on, as many as asked for or as there are; writing  *)
(* puts bytes there, growing the storage where needed; both call back once    *)
(* and move the position by what was read or written.  The end is reported    *)
(* only at the end, and always once a read came out short.                    *)
EXTENDS Naturals, Integers, Sequences
MinS(a, b) == IF a < b THEN a ELSE b
MaxS(a, b) == IF a > b THEN a ELSE b
Patch(c, at, b) == [i \in 1..(IF b = <<>> THEN Len(c) ELSE MaxS(Len(c), at + Len(b))) |->
                     IF i > at /\ i <= at + Len(b) THEN b[i - at] ELSE IF i <= Len(c) THEN c[i] ELSE 0]
Taken(s, n) == SubSeq(s.c, s.p + 1, MinS(s.p + n, Len(s.c)))
\* state after an operation
SRead(s, n)  == [s EXCEPT !.p = s.p + Len(Taken(s, n))]
SWrite(s, b) == [c |-> Patch(s.c, s.p, b), p |-> s.p + Len(b)]
SSeek(s, p)  == [s EXCEPT !.p = p]
\* what may be said about the end, in state s, after a read that asked for n and got k (n = k = 0: another operation)
Exact(kind) == kind \in {"mem", "grow", "filer", "filew", "filerw"}
EndOk(kind, s, n, k, eof) ==
  IF Exact(kind) THEN (eof = 1) = (s.p >= Len(s.c))
  ELSE /\ (eof = 1 => s.p >= Len(s.c))
       /\ (k < n => eof = 1)
=============================================================================
