----------------------------- MODULE SignalEventMC -----------------------------
(* The event made of lock, condition and count implements the event of Sync.  *)
EXTENDS SignalEvent
IdleR == [ph |-> "idle", f |-> "", o |-> 0, n |-> 0, r |-> FALSE]
All == {1, 2, 3, 4, 11, 12}
Rec(p, g, r) == [ph |-> p, f |-> g, o |-> 0, n |-> 0, r |-> r]
Map(t) ==
  IF t \notin Thr \/ at[t] = "idle" THEN IdleR
  ELSE CASE at[t] = "want" -> Rec("called", f[t], FALSE)
         [] at[t] = "in"   -> Rec("called", f[t], FALSE)
         [] at[t] \in {"asleep", "again", "post"} -> IF flag \/ my[t] # count THEN Rec("done", f[t], TRUE) ELSE Rec("in", f[t], FALSE)
         [] at[t] \in {"leave", "out"} -> Rec("done", f[t], res[t])
Bod == {11, 12}
A == INSTANCE Sync WITH sig <- [x \in {0, 1, 111, 112, 211, 212} |-> x = 0 /\ flag],
                        own <- [x \in {0, 1} |-> <<0, 0>>],
                        th <- [k \in Bod |-> "new"],
                        pc <- [t \in All |-> Map(t)]
\* the released ones of the abstract event become done at the moment of the signal
AbsNext == A!Internal \/ (\E t \in Thr, g \in {"wait", "twait", "signal", "reset"} : A!Call(t, g, 0, 0)) \/ (\E t \in Thr, r \in BOOLEAN : A!Return(t, r))
Refines == A!SInit /\ [][AbsNext]_(A!svars)
CONSTANT Total
Few == calls[1] + calls[2] + calls[3] <= Total
=============================================================================
