-------------------------------- MODULE Bits --------------------------------
(* Bit strings over byte sequences.  Words of up to 32 bits are pairs        *)
(* <<high 16 bits, low 16 bits>>, because TLC integers are 32 bit signed.    *)
EXTENDS Integers, Sequences

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

Bit(d, i) == (d[(i \div 8) + 1] \div 2^(7 - (i % 8))) % 2

\* the n <= 16 bits of d starting at bit p, most significant first
RECURSIVE Val(_, _, _)
Val(d, p, n) == IF n = 0 THEN 0 ELSE
    LET off  == p % 8
        room == 8 - off
        k    == Min2(room, n)
        chunk == (d[(p \div 8) + 1] \div 2^(room - k)) % 2^k
    IN  chunk * 2^(n - k) + Val(d, p + k, n - k)

Word(d, p, n) == IF n <= 16 THEN <<0, Val(d, p, n)>>
                 ELSE <<Val(d, p, n - 16), Val(d, p + n - 16, 16)>>

\* sign extension of an n bit word to 32 bits (single bits are not extended)
SignExt(w, n) ==
    IF n <= 1 THEN w
    ELSE IF n <= 16
         THEN IF w[2] >= 2^(n-1) THEN <<65535, w[2] + 65536 - 2^n>> ELSE w
         ELSE IF w[1] >= 2^(n-17) THEN <<w[1] + 65536 - 2^(n-16), w[2]>> ELSE w

\* bit i (0 = least significant) of a word
WBit(w, i) == IF i < 16 THEN (w[2] \div 2^i) % 2 ELSE (w[1] \div 2^(i - 16)) % 2

\* the n low bits of a word as a sequence, most significant first
BitSeq(w, n) == [i \in 1..n |-> WBit(w, n - i)]

\* byte i of a word, 0 = least significant
WByte(w, i) == CASE i = 0 -> w[2] % 256 [] i = 1 -> w[2] \div 256
                 [] i = 2 -> w[1] % 256 [] i = 3 -> w[1] \div 256

\* little endian: whole bytes least significant first, then the left over bits
LittleWord(d, p, n) ==
    LET nb == n \div 8
        lb == n % 8
        b(i) == IF i < nb THEN Val(d, p + 8*i, 8)
                ELSE IF i = nb /\ lb > 0 THEN Val(d, p + 8*i, lb) ELSE 0
    IN <<b(2) + 256 * b(3), b(0) + 256 * b(1)>>

RECURSIVE LittleSeqFrom(_, _, _)
LittleSeqFrom(w, n, i) ==
    IF 8 * i >= n THEN <<>>
    ELSE LET k == Min2(8, n - 8*i)
         IN BitSeq(<<0, WByte(w, i)>>, k) \o LittleSeqFrom(w, n, i + 1)
LittleSeq(w, n) == LittleSeqFrom(w, n, 0)

\* packs a bit sequence into bytes; the length is a multiple of 8
RECURSIVE FoldBits(_, _, _)
FoldBits(bs, i, acc) == IF i > Len(bs) THEN acc ELSE FoldBits(bs, i + 1, 2 * acc + bs[i])
Pack(bs) == [j \in 1..(Len(bs) \div 8) |-> FoldBits(SubSeq(bs, 8*j - 7, 8*j), 1, 0)]

Zeros(n) == [i \in 1..n |-> 0]
=============================================================================
