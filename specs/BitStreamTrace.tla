--------------------------- MODULE BitStreamTrace ---------------------------
(* Every recorded operation of the real bit stream must be a step of         *)
(* BitStream, with the result and the position the specification computes.   *)
EXTENDS BitStream, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, s
vars == <<tid, l, s>>
T == Traces[tid]

TInit == /\ tid \in 1..Len(Traces) /\ l = 1
         /\ TLCSet(tid, 0)
         /\ s = IF Traces[tid].mode = "r" THEN [p |-> 0] ELSE WInit

RResult(e) ==
    CASE e.op = "get"   -> RGet(T.data, s.p, e.n)
      [] e.op = "next"  -> RNext(T.data, s.p, e.n)
      [] e.op = "sget"  -> RSGet(T.data, s.p, e.n)
      [] e.op = "lget"  -> RLGet(T.data, s.p, e.n)
      [] e.op = "nextx" -> RNextX(T.data, s.p, e.n, e.sg, e.al)
      [] e.op = "skip"  -> RSkip(T.data, s.p, e.n)
      [] e.op = "align" -> RAlign(T.data, s.p, e.n)
      [] e.op = "seek"  -> RSeek(T.data, e.n)
      [] e.op = "read"  -> RRead(T.data, s.p, e.n)
      [] e.op = "eof"   -> REof(T.data, s.p)
      [] e.op = "has"   -> RHas(T.data, s.p, e.n)
      [] e.op = "code"  -> RCode(T.data, s.p, e.c, e.w, e.al)
      [] OTHER          -> [p |-> {}, st |-> "never", r |-> 0]

RStep(e) == LET x == RResult(e)
            IN /\ x.p # {}
               /\ e.st = x.st
               /\ (x.st = "ok" => e.r = x.r)
               /\ (e.op = "read" => e.cnt = Len(x.r))
               /\ e.bp \in x.p
               /\ e.p = e.bp \div 8
               /\ s' = [p |-> e.bp]

WStep(e) ==
    \/ /\ e.op = "content"
       /\ Len(s.part) = 0 /\ e.r = s.c
       /\ s' = s
    \/ /\ e.op \in {"put", "lput", "skip", "align", "code", "write", "flush", "seek"}
       /\ LET w == CASE e.op = "put"   -> WPut(s, e.v, e.n)
                     [] e.op = "lput"  -> WLPut(s, e.v, e.n)
                     [] e.op = "skip"  -> WSkip(s, e.n)
                     [] e.op \in {"align", "code"} -> IF e.n % 8 # 0 THEN s ELSE WAlign(s, e.n)
                     [] e.op = "write" -> WWrite(s, e.d)
                     [] e.op = "flush" -> s
                     [] e.op = "seek"  -> WSeek(s, e.n)
          IN /\ s' = w
             /\ e.bp = WBitPos(w) /\ e.p = w.pos
             /\ IF e.op \in {"align", "code"} /\ e.n % 8 # 0
                THEN e.st = "ali"
                ELSE e.st = "ok" /\ (e.op \in {"align", "code"} => e.r = WBitPos(w) - WBitPos(s))

TNext == /\ l <= Len(T.ev)
         /\ l' = l + 1 /\ UNCHANGED tid
         /\ IF T.mode = "r" THEN RStep(T.ev[l]) ELSE WStep(T.ev[l])

TSpec == TInit /\ [][TNext]_vars
Progress == TLCSet(tid, Max2(TLCGet(tid), l))
Report == \A t \in 1..Len(Traces) :
            TLCGet(t) > Len(Traces[t].ev) \/ PrintT(<<"REJECT", t, TLCGet(t)>>)
=============================================================================
