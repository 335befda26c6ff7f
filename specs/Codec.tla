-------------------------------- MODULE Codec --------------------------------
(* Base 64 (RFC 4648) and the checksum of MPEG-2 sections.                    *)
EXTENDS Naturals, Integers, Sequences, Bitwise
Chars == [i \in 0..63 |-> IF i < 26 THEN 65 + i ELSE IF i < 52 THEN 71 + i ELSE IF i < 62 THEN i - 4 ELSE IF i = 62 THEN 43 ELSE 47]
Pad == 61
RECURSIVE Enc(_)
Enc(b) ==
  CASE Len(b) = 0 -> <<>>
    [] Len(b) = 1 -> <<Chars[b[1] \div 4], Chars[(b[1] % 4) * 16], Pad, Pad>>
    [] Len(b) = 2 -> <<Chars[b[1] \div 4], Chars[(b[1] % 4) * 16 + b[2] \div 16], Chars[(b[2] % 16) * 4], Pad>>
    [] OTHER      -> <<Chars[b[1] \div 4], Chars[(b[1] % 4) * 16 + b[2] \div 16], Chars[(b[2] % 16) * 4 + b[3] \div 64], Chars[b[3] % 64]>>
                     \o Enc(SubSeq(b, 4, Len(b)))
Value(c) == IF c \in 65..90 THEN c - 65 ELSE IF c \in 97..122 THEN c - 71 ELSE IF c \in 48..57 THEN c + 4
            ELSE IF c = 43 THEN 62 ELSE IF c = 47 THEN 63 ELSE -1
\* decoding ignores everything that is no code character
Codes(t) == SelectSeq([i \in DOMAIN t |-> Value(t[i])], LAMBDA v : v >= 0)
RECURSIVE DecV(_)
DecV(v) ==
  CASE Len(v) <= 1 -> <<>>
    [] Len(v) = 2  -> <<v[1] * 4 + v[2] \div 16>>
    [] Len(v) = 3  -> <<v[1] * 4 + v[2] \div 16, (v[2] % 16) * 16 + v[3] \div 4>>
    [] OTHER       -> <<v[1] * 4 + v[2] \div 16, (v[2] % 16) * 16 + v[3] \div 4, (v[3] % 4) * 64 + v[4]>> \o DecV(SubSeq(v, 5, Len(v)))
Dec(t) == DecV(Codes(t))

\* polynomial 04C11DB7, all ones first, most significant bit first, not inverted; words as two halves
RECURSIVE Shift8(_, _)
Shift8(c, n) == IF n = 0 THEN c
                ELSE LET h == ((c[1] * 2) % 65536) + (c[2] \div 32768)
                         w == (c[2] * 2) % 65536
                     IN Shift8(IF c[1] >= 32768 THEN <<h ^^ 1217, w ^^ 7607>> ELSE <<h, w>>, n - 1)
RECURSIVE CrcFrom(_, _)
CrcFrom(c, b) == IF b = <<>> THEN c ELSE CrcFrom(Shift8(<<c[1] ^^ (Head(b) * 256), c[2]>>, 8), Tail(b))
Crc(b) == CrcFrom(<<65535, 65535>>, b)
Bytes4(w) == <<w[1] \div 256, w[1] % 256, w[2] \div 256, w[2] % 256>>
=============================================================================
