----------------------------- MODULE CopyStream -----------------------------
(* How a stream is copied: the caller issues reads, a few at a time; the     *)
(* source delivers each on its own thread, where it is handed on to the      *)
(* destination; the destination stores it on a thread of its own.  The       *)
(* counts tell the caller when to go on and when everything has been stored. *)
EXTENDS Integers, Sequences
CONSTANTS N, MaxOut       \* chunks to copy; how far the stored ones may lag behind
VARIABLES pc, next,       \* the caller; the next chunk
  rd, wr, tr,             \* reads issued, chunks stored, chunks being handed on
  reads, cbk, hand,       \* reads issued and not delivered; what the source's thread is doing, and with which chunk
  writes, out             \* chunks handed on and not stored; the destination
vars == <<pc, next, rd, wr, tr, reads, cbk, hand, writes, out>>
Init == /\ pc = "loop" /\ next = 1 /\ rd = 0 /\ wr = 0 /\ tr = 0
        /\ reads = <<>> /\ cbk = "idle" /\ hand = 0 /\ writes = <<>> /\ out = <<>>
\* the caller
Decide == /\ pc = "loop"
          /\ IF next > N THEN pc' = "end" ELSE IF rd - wr > MaxOut THEN pc' = "loop" ELSE pc' = "issue"
          /\ UNCHANGED <<next, rd, wr, tr, reads, cbk, hand, writes, out>>
Count == /\ pc = "issue" /\ rd' = rd + 1 /\ pc' = "read"
         /\ UNCHANGED <<next, wr, tr, reads, cbk, hand, writes, out>>
Read == /\ pc = "read" /\ reads' = Append(reads, next) /\ next' = next + 1 /\ pc' = "loop"
        /\ UNCHANGED <<rd, wr, tr, cbk, hand, writes, out>>
End == /\ pc = "end" /\ rd = wr /\ tr = 0 /\ pc' = "done"
       /\ UNCHANGED <<next, rd, wr, tr, reads, cbk, hand, writes, out>>
\* the source's thread
Deliver == /\ cbk = "idle" /\ reads # <<>>
           /\ hand' = Head(reads) /\ reads' = Tail(reads) /\ cbk' = "got" /\ tr' = tr + 1
           /\ UNCHANGED <<pc, next, rd, wr, writes, out>>
HandOn == /\ cbk = "got" /\ writes' = Append(writes, hand) /\ cbk' = "gave"
          /\ UNCHANGED <<pc, next, rd, wr, tr, reads, hand, out>>
Leave == /\ cbk = "gave" /\ tr' = tr - 1 /\ cbk' = "idle"
         /\ UNCHANGED <<pc, next, rd, wr, reads, hand, writes, out>>
\* the destination's thread
Store == /\ writes # <<>> /\ out' = Append(out, Head(writes)) /\ writes' = Tail(writes) /\ wr' = wr + 1
         /\ UNCHANGED <<pc, next, rd, tr, reads, cbk, hand>>
Next == Decide \/ Count \/ Read \/ End \/ Deliver \/ HandOn \/ Leave \/ Store
Spec == Init /\ [][Next]_vars /\ WF_vars(Decide) /\ WF_vars(Count) /\ WF_vars(Read) /\ WF_vars(End)
             /\ WF_vars(Deliver) /\ WF_vars(HandOn) /\ WF_vars(Leave) /\ WF_vars(Store)
-----------------------------------------------------------------------------
All == [i \in 1..N |-> i]
InOrder == out = SubSeq(All, 1, Len(out))
\* when the caller goes on, everything has been stored and nobody refers to the copy any more
Complete == pc = "done" => out = All /\ cbk = "idle" /\ reads = <<>> /\ writes = <<>>
FewAtATime == rd - wr <= MaxOut + 1
Ends == <>(pc = "done")
=============================================================================
