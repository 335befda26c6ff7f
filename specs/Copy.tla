-------------------------------- MODULE Copy --------------------------------
(* Copying [a, b) of a source to a destination appends exactly those bytes    *)
(* (to the end of the source when b is 0), stored and flushed when the call   *)
(* returns; if a storage fails, the call ends with that error.                *)
EXTENDS Naturals, Integers, Sequences
Range(s, a, b) == SubSeq(s, a + 1, IF b = 0 \/ b > Len(s) THEN Len(s) ELSE b)
IsPrefix(p, s) == Len(p) <= Len(s) /\ p = SubSeq(s, 1, Len(p))
\* [ex, d]: what the caller is told and the destination then has
CopyOk(dst, s, a, b, e) == /\ e.ex = 0 /\ e.d = dst \o Range(s, a, b)
                           /\ e.over = 0 /\ e.left = 0 /\ e.flushed = 1
CopyFailed(dst, s, a, b, e) == e.ex = e.fault
=============================================================================
