-------------------------- MODULE DoubleBufferGen --------------------------
(* Every sequence of Depth user steps and deliveries of DoubleBuffer, for    *)
(* replay on the real bit stream.  The refill steps are the code's own.      *)
EXTENDS DoubleBuffer, TLC, Json
CONSTANT Depth
VARIABLE h
Log(x) == h' = Append(h, x)
GInit == Init /\ h = <<>>
GNext == /\ Len(h) < Depth
         /\ IF want > 0
            THEN h' = h /\ (IF ENABLED Take THEN Take ELSE IF ENABLED Fill THEN Fill ELSE Deliver)
            ELSE \/ Deliver /\ Log(<<"d">>)
                 \/ \E k \in 1..b : Ask(k) /\ Log(<<"c", k>>)
                 \/ \E q \in 0..n : IF pend = NoRead THEN Seek(q) /\ Log(<<"s", q>>)
                                    ELSE Deliver /\ Log(<<"x">>)
GSpec == GInit /\ [][GNext]_<<vars, h>>
Emit == Len(h) = Depth /\ want >= 0 => PrintT(<<"SCRIPT", ToJson([n |-> n, b |-> b, h |-> h])>>)
=============================================================================
