---------------------------- MODULE Mp4WriteTrace ----------------------------
EXTENDS TraceBase, Mp4Write
\* of each trace, the file and what it says, when it can be read at all
Ended(t) == {k \in 1..Len(Traces[t].ev) : Traces[t].ev[k].op = "end"}
File(t) == IF Ended(t) = {} THEN <<>> ELSE Traces[t].ev[CHOOSE k \in Ended(t) : TRUE].file
Made == [t \in 1..Len(Traces) |-> IF Sound(File(t)) THEN Made1(File(t)) ELSE <<>>]
\* of each trace, the samples by the event that adds them
Added == [t \in 1..Len(Traces) |-> [k \in 1..Len(Traces[t].ev) |-> LET e == Traces[t].ev[k] IN
           IF e.op = "add" THEN [comp |-> BParts(e.comp), dec |-> BParts(e.dec), sync |-> e.sync, d |-> e.d] ELSE <<>>]]
VARIABLE st, opt       \* (samples as the number of the event that adds them) the streams; [dist, shift]
vars == <<tid, l, st, opt>>
V(p) == BParts(p)
Blank == [lang |-> <<117, 110, 100>>, auto |-> FALSE, reordered |-> FALSE, a |-> <<>>]
Good(f) == LET S == [s \in DOMAIN st |-> [st[s] EXCEPT !.a = [k \in 1..Len(@) |-> Added[tid][@[k]]]]] IN
           Made[tid] # <<>> /\ (CASE T.part = "contents" -> Written(f, S, Made[tid])
                               [] T.part = "order" -> Interleaved(f, Made[tid], S, opt.dist)
                               [] T.part = "entries" -> Described(f, S, Made[tid])
                               [] T.part = "dates" -> Dated(f, V(Ev.from), V(Ev.to)))
Step(e) ==
  CASE e.op = "video" -> /\ e.id = Len(st) /\ UNCHANGED opt
         /\ st' = Append(st, [kind |-> vide, scale |-> V(e.scale), w |-> e.w, h |-> e.h, sps |-> e.sps, pps |-> e.pps] @@ Blank)
    [] e.op = "audio" -> /\ e.id = Len(st) /\ UNCHANGED opt
         /\ st' = Append(st, [kind |-> soun, scale |-> V(e.scale), object |-> e.object, rate |-> BNat(V(e.rate)), channels |-> e.channels] @@ Blank)
    [] e.op = "lang" -> st' = [st EXCEPT ![e.s + 1].lang = e.lang] /\ UNCHANGED opt
    [] e.op = "auto" -> st' = [st EXCEPT ![e.s + 1].auto = TRUE] /\ UNCHANGED opt
    [] e.op = "distance" -> opt' = [opt EXCEPT !.dist = V(e.d)] /\ UNCHANGED st
    [] e.op \in {"shift", "start"} -> UNCHANGED <<st, opt>>
    [] e.op = "add" -> /\ UNCHANGED opt
         /\ LET a == st[e.s + 1].a IN
            st' = [st EXCEPT ![e.s + 1].a = Append(a, l), ![e.s + 1].reordered = @ \/ (a # <<>> /\ BLt(Added[tid][l].comp, Added[tid][a[Len(a)]].comp))]
    [] e.op = "end" -> /\ (~e.left /\ Good(e.file)) = TRUE
         /\ UNCHANGED <<st, opt>>
    [] OTHER -> FALSE
TInit == TraceInit /\ st = <<>> /\ opt = [dist |-> BInt(6000000), shift |-> FALSE]
TNext == Advance /\ Step(Ev)
TSpec == TInit /\ [][TNext]_vars
==============================================================================
