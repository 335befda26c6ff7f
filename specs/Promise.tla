-------------------------------- MODULE Promise --------------------------------
(* A promise takes a value or an error and hands it to its handlers, whether  *)
(* they are there before or after it, and to the promise it forwards to.  One *)
(* thread at a time is inside a promise; a thread may be inside several.      *)
EXTENDS Naturals, Integers, Sequences, TLC
Promises == 1..3
Thr == 0..4
\* a promise: cb, er: handler or "none"; val, err: what waits for a handler (0: nothing); fwd: promise or 0
\* cb: <<"ok", 0>> or <<"throw", code>>;  er: "go" "stop" "rethrow", and "silent": the library's own, which rethrows
None == <<"none", 0>>
Fresh == [cb |-> None, er |-> None, val |-> 0, err |-> 0, fwd |-> 0]
VARIABLES st, pc
pvars == <<st, pc>>
\* per thread: is it in a call, its frames (innermost first), the error leaving the call (0: none)
Idle == [ph |-> "idle", fr |-> <<>>, ex |-> 0]
PInit == st = [p \in Promises |-> Fresh] /\ pc = [t \in Thr |-> Idle]
Frame(k, p, x, h) == [k |-> k, p |-> p, x |-> x, h |-> h, s |-> "enter"]
RECURSIVE Raise(_, _)
\* an error leaves the innermost frame
Raise(fr, x) ==
  IF fr = <<>> THEN [ph |-> "in", fr |-> <<>>, ex |-> x]
  ELSE LET top == Head(fr) IN
       IF top.k = "val" /\ top.s = "fwd"      \* an error of the promise forwarded to is an error of this one
       THEN [ph |-> "in", fr |-> <<Frame("err", top.p, x, None), [top EXCEPT !.s = "er"]>> \o Tail(fr), ex |-> 0]
       ELSE Raise(Tail(fr), x)
Go(fr) == [ph |-> "in", fr |-> fr, ex |-> 0]
Free(t, p) == \A u \in Thr \ {t} : \A i \in DOMAIN pc[u].fr : pc[u].fr[i].p = p => pc[u].fr[i].s = "enter"
Lin(t) ==
  /\ pc[t].ph = "in" /\ pc[t].fr # <<>>
  /\ LET fr == pc[t].fr  f == Head(fr)  rest == Tail(fr)  p == f.p  q == st[p]
         Stay(s) == <<[f EXCEPT !.s = s]>> \o rest
         Sub(s, g) == pc' = [pc EXCEPT ![t] = Go(<<g>> \o Stay(s))]
         Pop == pc' = [pc EXCEPT ![t] = Go(rest)]
         At(s) == pc' = [pc EXCEPT ![t] = Go(Stay(s))]
     IN
     CASE f.s = "enter" /\ Free(t, p) ->
           (CASE f.k = "val" -> (IF q.cb = None THEN st' = [st EXCEPT ![p].val = f.x] /\ Pop ELSE At("run") /\ UNCHANGED st)
              [] f.k = "err" -> (CASE q.er = None -> st' = [st EXCEPT ![p].err = f.x] /\ Pop
                                  [] q.er[1] = "silent" -> pc' = [pc EXCEPT ![t] = Raise(rest, f.x)] /\ UNCHANGED st
                                  [] OTHER -> At("run") /\ UNCHANGED st)
              [] f.k = "setcb" -> st' = [st EXCEPT ![p].cb = f.h] /\ (IF q.val # 0 THEN Sub("sub", Frame("val", p, q.val, None)) ELSE Pop)
              [] f.k = "seter" -> st' = [st EXCEPT ![p].er = f.h] /\ (IF q.err # 0 THEN Sub("sub", Frame("err", p, q.err, None)) ELSE Pop)
              [] f.k = "fwd"   -> st' = [st EXCEPT ![p].fwd = f.x, ![f.x].er = IF f.h[1] = "auto" THEN <<"silent", 0>> ELSE @] /\ Pop)
       [] f.s = "ran" /\ f.k = "val" ->
            UNCHANGED st /\ (CASE q.cb[1] = "throw" -> Sub("er", Frame("err", p, q.cb[2], None))
                               [] q.cb[1] # "throw" /\ q.fwd # 0 -> Sub("fwd", Frame("val", q.fwd, f.x, None))
                               [] OTHER -> Pop)
       [] f.s = "ran" /\ f.k = "err" ->
            UNCHANGED st /\ (CASE q.er[1] = "rethrow" -> pc' = [pc EXCEPT ![t] = Raise(rest, f.x)]
                               [] q.er[1] = "go" /\ q.fwd # 0 -> Sub("fwd", Frame("err", q.fwd, f.x, None))
                               [] OTHER -> Pop)
       [] f.s \in {"sub", "fwd", "er"} -> Pop /\ UNCHANGED st
       [] OTHER -> FALSE
Call(t, f, p, a, b) ==
  /\ pc[t].ph = "idle" /\ UNCHANGED st
  /\ pc' = [pc EXCEPT ![t] = Go(<<CASE f = "callcb" -> Frame("val", p, b, None) [] f = "caller" -> Frame("err", p, b, None)
                                    [] f = "fwd" -> Frame("fwd", p, b, <<a, 0>>) [] OTHER -> Frame(f, p, 0, <<a, b>>)>>)]
\* a handler runs
Run(t, k, p, v) ==
  /\ pc[t].ph = "in" /\ pc[t].fr # <<>> /\ UNCHANGED st
  /\ LET f == Head(pc[t].fr) IN
       /\ f.s = "run" /\ f.p = p /\ f.x = v /\ f.k = (IF k = "cb" THEN "val" ELSE "err")
       /\ pc' = [pc EXCEPT ![t] = Go(<<[f EXCEPT !.s = "ran"]>> \o Tail(pc[t].fr))]
Ret(t, x) == /\ pc[t].ph = "in" /\ pc[t].fr = <<>> /\ pc[t].ex = x
             /\ pc' = [pc EXCEPT ![t] = Idle] /\ UNCHANGED st
=============================================================================
