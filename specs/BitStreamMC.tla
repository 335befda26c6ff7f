----------------------------- MODULE BitStreamMC -----------------------------
(* Small exhaustive model of writing followed by reading back.               *)
EXTENDS BitStream, TLC
CONSTANTS MaxOps, Widths
VARIABLES w, k, hist   \* hist: sequence of <<bit position, value, width>> still in the content
MCInit == w = WInit /\ k = 0 /\ hist = <<>>
Values(n) == {<<0, 1>>, <<65535, 65535>>, <<4660, 22136>>}
Overlaps(a, p, n) == ~(a[1] + a[3] <= p \/ p + n <= a[1])
Put(n, v) == LET p == WBitPos(w)
             IN /\ w' = WPut(w, v, n)
                /\ hist' = Append(SelectSeq(hist, LAMBDA a : ~Overlaps(a, p, n)), <<p, v, n>>)
Seek(q) == /\ w.part = <<>> /\ q <= Len(w.c) /\ w' = WSeek(w, q) /\ hist' = hist
\* closing the open byte pads it, and replaces the rest of the byte that was there
Close == LET p == WBitPos(w) n == AlignUp(p, 8) - p IN
         /\ w.part # <<>> /\ w' = WAlign(w, 8)
         /\ hist' = SelectSeq(hist, LAMBDA a : ~Overlaps(a, p, n))
MCNext == /\ k < MaxOps /\ k' = k + 1
          /\ \/ \E n \in Widths : \E v \in Values(n) : Put(n, v)
             \/ \E q \in 0..2 : Seek(q)
             \/ Close
MCSpec == MCInit /\ [][MCNext]_<<w, k, hist>>
Mask(v, n) == IF n <= 16 THEN <<0, v[2] % 2^n>> ELSE <<v[1] % 2^(n-16), v[2]>>
\* every field whose bytes are complete reads back as written
RoundTrip == \A i \in 1..Len(hist) :
    LET a == hist[i] IN
    (a[3] > 0 /\ a[1] + a[3] <= 8 * Len(w.c) /\ (w.part = <<>> \/ ~Overlaps(a, 8 * w.pos, 8)))
        => RGet(w.c, a[1], a[3]).r = Mask(a[2], a[3])
=============================================================================
