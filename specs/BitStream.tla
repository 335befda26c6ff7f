------------------------------ MODULE BitStream ------------------------------
(* What a bit stream is to its user, whatever the size of its buffers, the   *)
(* storage behind it and the moment the storage delivers.                    *)
(*                                                                           *)
(* Reading:  a fixed byte sequence d and a bit position.                     *)
(* Writing:  a content, the byte position of the next byte and the bits of   *)
(*           the byte being composed.                                        *)
(* Every operator maps (state, arguments) to [pos/state, st, r].             *)
EXTENDS Bits

NBits(d) == 8 * Len(d)

--------------------------------------------------------------------------------
(* Reading: st is "ok", "eod" (nothing is invented past the end), "inv", "ali" *)

Ok(p, r)  == [p |-> {p}, st |-> "ok", r |-> r]
Eod(ps)   == [p |-> ps, st |-> "eod", r |-> 0]
Bad(p, s) == [p |-> {p}, st |-> s, r |-> 0]

RGet(d, p, n) ==
    IF n < 0 \/ n > 32 THEN Bad(p, "inv")
    ELSE IF p + n > NBits(d) THEN Eod({p}) ELSE Ok(p + n, Word(d, p, n))
RNext(d, p, n) ==
    IF n < 0 \/ n > 32 THEN Bad(p, "inv")
    ELSE IF p + n > NBits(d) THEN Eod({p}) ELSE Ok(p, Word(d, p, n))
RSGet(d, p, n) ==
    IF n < 0 \/ n > 32 THEN Bad(p, "inv")
    ELSE IF p + n > NBits(d) THEN Eod({p}) ELSE Ok(p + n, SignExt(Word(d, p, n), n))
\* read byte by byte: how much is consumed before the end is found is left open
RLGet(d, p, n) ==
    IF p + n > NBits(d) THEN Eod(p..NBits(d)) ELSE Ok(p + n, LittleWord(d, p, n))
\* skipping stops at the end
RSkip(d, p, n) == Ok(Min2(p + n, NBits(d)), 0)
AlignUp(p, n) == IF p % n = 0 THEN p ELSE p + n - (p % n)
RAlign(d, p, n) ==
    IF n % 8 # 0 THEN Bad(p, "ali")
    ELSE LET q == AlignUp(p, n)
         IN IF q > NBits(d) THEN Eod(p..NBits(d)) ELSE Ok(q, q - p)
RNextX(d, p, n, sg, al) ==
    LET a == IF al > 0 THEN RAlign(d, p, al) ELSE Ok(p, 0)
    IN IF a.st # "ok" THEN a
       ELSE LET q == CHOOSE x \in a.p : TRUE
                g == RNext(d, q, n)
            IN IF g.st # "ok" THEN g
               ELSE [g EXCEPT !.r = IF sg = 1 THEN SignExt(g.r, n) ELSE g.r]
\* there is nothing after the end
RSeek(d, q) == Ok(8 * Min2(q, Len(d)), 0)
\* bulk reads start at a byte boundary
RRead(d, p, n) == LET k == Min2(n, Len(d) - p \div 8)
                  IN Ok(p + 8 * k, SubSeq(d, p \div 8 + 1, p \div 8 + k))
REof(d, p) == Ok(p, IF p = NBits(d) THEN 1 ELSE 0)
RHas(d, p, n) == Ok(p, IF p + n <= NBits(d) THEN 1 ELSE 0)
\* search for a w bit code at every step-th bit
RECURSIVE Find(_, _, _, _, _)
Find(d, q, c, w, step) ==
    IF q + w > NBits(d) THEN -1
    ELSE IF Word(d, q, w) = c THEN q ELSE Find(d, q + step, c, w, step)
RCode(d, p, c, w, al) ==
    LET a == IF al > 0 THEN RAlign(d, p, al) ELSE Ok(p, 0)
    IN IF a.st # "ok" THEN a
       ELSE LET q == CHOOSE x \in a.p : TRUE
                f == Find(d, q, c, w, IF al > 0 THEN al ELSE 1)
            IN IF f < 0 THEN Eod(p..NBits(d)) ELSE Ok(f, f - p)

--------------------------------------------------------------------------------
(* Writing: w = [c: content, pos: byte position, part: bits of the open byte]  *)

WInit == [c |-> <<>>, pos |-> 0, part |-> <<>>]
WBitPos(w) == 8 * w.pos + Len(w.part)

\* bytes bs replace / extend the content at byte position q
Patch(c, q, bs) ==
    LET n == Max2(Len(c), q + Len(bs))
    IN [i \in 1..n |-> IF i > q /\ i <= q + Len(bs) THEN bs[i - q]
                       ELSE IF i <= Len(c) THEN c[i] ELSE 0]

WBits(w, bs) ==
    LET all == w.part \o bs
        k   == 8 * (Len(all) \div 8)
        by  == Pack(SubSeq(all, 1, k))
    IN [c    |-> IF k = 0 THEN w.c ELSE Patch(w.c, w.pos, by),
        pos  |-> w.pos + k \div 8,
        part |-> SubSeq(all, k + 1, Len(all))]

WPut(w, v, n)  == WBits(w, BitSeq(v, n))
WLPut(w, v, n) == WBits(w, LittleSeq(v, n))
WSkip(w, n)    == WBits(w, Zeros(n))
WAlign(w, n)   == WBits(w, Zeros(AlignUp(WBitPos(w), n) - WBitPos(w)))
\* bulk writes and repositioning happen at byte boundaries
WWrite(w, bs)  == [w EXCEPT !.c = IF bs = <<>> THEN w.c ELSE Patch(w.c, w.pos, bs), !.pos = w.pos + Len(bs)]
WSeek(w, q)    == [w EXCEPT !.pos = q]
=============================================================================
