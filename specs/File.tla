-------------------------------- MODULE File --------------------------------
(* Files read and written asynchronously on one loop thread, as their owner   *)
(* sees them.  One thread, the owner, issues operations; the loop thread      *)
(* delivers their outcomes.  What holds, whatever the order in which the      *)
(* operating system completes them:                                           *)
(*  - the reads of a file are delivered in the order they were issued, each   *)
(*    with the bytes that stand at the position the file had then;            *)
(*  - every operation has one outcome: its callback runs once, or its error   *)
(*    handler does, or the error ends the loop and is given to the owner when *)
(*    it ends the loop (or asks), once;                                       *)
(*  - handlers run one after another on the loop thread (on the owner's only  *)
(*    while it registers them late);                                          *)
(*  - closing or destroying a file, and ending the loop, return only when     *)
(*    every operation issued before has had its outcome.                      *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
VARIABLES
  op,       \* the operations issued: [f, x, d, r, m, e, st, by]
  order,    \* their numbers, in the order of issue
  size, pos, disk, exists, state,     \* per file
  dead,     \* 0, or the error that ended the loop
  told,     \* whether the owner got it
  running,  \* running[t]: the operations whose handlers run on the owner's (0) or the loop's (1) thread, innermost last
  pend,     \* the error a handler threw on the owner's thread
  call,     \* what the owner is doing, f = "" nothing
  over      \* the owner ended the loop
fvars == <<op, order, size, pos, disk, exists, state, dead, told, running, pend, call, over>>
Files == {0, 1}
MinF(a, b) == IF a < b THEN a ELSE b
MaxF(a, b) == IF a > b THEN a ELSE b
Idle == [f |-> "", k |-> 0, x |-> 0, a |-> "", n |-> 0, m |-> "", e |-> 0]
Initial(x, n) == [i \in 1..MaxF(n, 0) |-> (x * 128 + i - 1) % 256]
FInit(init) ==
  /\ op = <<>> /\ order = <<>>
  /\ size = [x \in Files |-> MaxF(init[x + 1], 0)] /\ pos = [x \in Files |-> 0]
  /\ disk = [x \in Files |-> Initial(x, init[x + 1])] /\ exists = [x \in Files |-> init[x + 1] >= 0]
  /\ state = [x \in Files |-> "none"] /\ dead = 0 /\ told = FALSE
  /\ running = [t \in {0, 1} |-> <<>>] /\ pend = 0 /\ call = Idle /\ over = FALSE

Own(m) == m \in {"h", "u", "s"}       \* the owner's own error handler
Visible(k) == op[k].m # "f"
Silent(k) == op[k].m = "f" /\ op[k].e = 0
\* delivered already, for all anybody can tell
Settled(k) == op[k].st = "done" \/ (op[k].st = "new" /\ Silent(k))
Earlier(k) == {order[i] : i \in {j \in 1..Len(order) : \E q \in 1..Len(order) : order[q] = k /\ j < q}}
InTurn(k) == op[k].f = "read" =>
   \A j \in Earlier(k) : (op[j].f = "read" /\ op[j].x = op[k].x) => (Settled(j) \/ op[j].st = "run")
Of(x) == {order[i] : i \in 1..Len(order)} \cap {k \in DOMAIN op : op[k].x = x}
AllSettled(x, but) == \A k \in Of(x) \ {but} : Settled(k)
Top(t) == IF running[t] = <<>> THEN 0 ELSE running[t][Len(running[t])]
Push(t, k) == running' = [running EXCEPT ![t] = Append(@, k)]
Pop(t) == running' = [running EXCEPT ![t] = SubSeq(@, 1, Len(@) - 1)]
Put(k, o) == /\ k \notin DOMAIN op
             /\ op' = [i \in DOMAIN op \cup {k} |-> IF i = k THEN o ELSE op[i]]
             /\ order' = Append(order, k)
Set(k, s) == op' = [op EXCEPT ![k].st = s]

\* ---- issuing
IssueRead(k, x, n, m, e, by) ==
  LET len == MinF(n, MaxF(size[x] - pos[x], 0)) IN
  /\ Put(k, [f |-> "read", x |-> x, d |-> SubSeq(disk[x], pos[x] + 1, pos[x] + len), r |-> 0, m |-> m, e |-> e, st |-> "new", by |-> by])
  /\ pos' = [pos EXCEPT ![x] = @ + len]
  /\ UNCHANGED <<size, disk, exists, state>>
Patched(s, at, b) == [i \in 1..MaxF(Len(s), at + Len(b)) |->
                       IF i > at /\ i <= at + Len(b) THEN b[i - at] ELSE IF i <= Len(s) THEN s[i] ELSE 0]
IssueWrite(k, x, n, m, e) ==
  LET b == [j \in 1..n |-> (k * 16 + j - 1) % 256] IN
  /\ Put(k, [f |-> "write", x |-> x, d |-> <<>>, r |-> n, m |-> m, e |-> e, st |-> "new", by |-> 0])
  /\ disk' = IF e = 0 THEN [disk EXCEPT ![x] = Patched(@, pos[x], b)] ELSE disk
  /\ pos' = [pos EXCEPT ![x] = @ + n]
  /\ size' = [size EXCEPT ![x] = MaxF(@, pos[x] + n)]
  /\ UNCHANGED <<exists, state>>
IssueOpen(k, x, a, m, e0) ==
  LET e == IF a \in {"m", "r0m"} \/ (a \in {"r", "r0"} /\ ~exists[x]) THEN -2 ELSE e0 IN
  /\ IF m = "-" THEN UNCHANGED <<op, order>>
     ELSE Put(k, [f |-> "open", x |-> x, d |-> <<>>, r |-> 0, m |-> m, e |-> e, st |-> "new", by |-> 0])
  /\ pos' = [pos EXCEPT ![x] = 0]
  /\ IF e # 0 THEN UNCHANGED <<disk, exists, size>>
     ELSE /\ disk' = IF a = "w" THEN [disk EXCEPT ![x] = <<>>] ELSE disk
          /\ exists' = [exists EXCEPT ![x] = TRUE]
          /\ size' = IF a = "w" THEN [size EXCEPT ![x] = 0] ELSE size
  /\ state' = [state EXCEPT ![x] = IF e # 0 THEN "failed" ELSE "open"]
IssueClose(k, x, m, e) ==
  /\ IF m = "-" THEN UNCHANGED <<op, order>>
     ELSE Put(k, [f |-> "close", x |-> x, d |-> <<>>, r |-> 0, m |-> m, e |-> e, st |-> "new", by |-> 0])
  /\ state' = [state EXCEPT ![x] = "closed"]
  /\ UNCHANGED <<pos, disk, exists, size>>

\* ---- the owner's calls
Call(c) ==
  /\ call.f = "" /\ call' = c
  /\ CASE c.f = "read"  -> IssueRead(c.k, c.x, c.n, c.m, c.e, 0)
       [] c.f = "write" -> IssueWrite(c.k, c.x, c.n, c.m, c.e)
       [] c.f = "open"  -> IssueOpen(c.k, c.x, c.a, c.m, c.e)
       [] c.f = "close" -> IssueClose(c.k, c.x, c.m, c.e)
       [] c.f = "pos"   -> pos' = [pos EXCEPT ![c.x] = c.n] /\ UNCHANGED <<op, order, size, disk, exists, state>>
       [] OTHER -> UNCHANGED <<op, order, size, pos, disk, exists, state>>
  /\ UNCHANGED <<dead, told, running, pend, over>>
\* everything issued for the file before this call has had its outcome
Quiescent(x, but) == /\ dead # 0 \/ AllSettled(x, but)
                     /\ Top(1) \notin {0, but} => op[Top(1)].x # x
Ret(f, ex, r) ==
  /\ call.f = f /\ f # "" /\ Top(0) = 0
  /\ call' = Idle /\ pend' = 0
  /\ UNCHANGED <<order, size, pos, disk, exists, dead, running>>
  /\ IF pend # 0 THEN ex = pend /\ UNCHANGED <<op, told, over, state>>
     ELSE LET x == call.x IN
       CASE f = "open" ->
              /\ UNCHANGED <<told, over, state>>
              /\ IF call.m = "-" THEN ex = (IF state[x] = "failed" THEN -2 ELSE 0) /\ UNCHANGED op
                 ELSE \/ ex = 0 /\ UNCHANGED op
                      \* what is known to fail may be refused at once
                      \/ ex = -2 /\ op[call.k].e = -2 /\ op[call.k].st = "new" /\ Set(call.k, "done")
         [] f \in {"close", "destroy", "drain"} ->
              /\ ex = 0 /\ Quiescent(x, IF f = "close" THEN call.k ELSE 0)
              /\ state' = IF f = "destroy" THEN [state EXCEPT ![x] = "none"] ELSE state
              /\ UNCHANGED <<op, told, over>>
         [] f = "qpos"  -> ex = 0 /\ r = pos[x] /\ UNCHANGED <<op, told, over, state>>
         [] f = "qsize" -> ex = 0 /\ r = size[x] /\ UNCHANGED <<op, told, over, state>>
         [] f = "qeof"  -> ex = 0 /\ r = (IF pos[x] >= size[x] THEN 1 ELSE 0) /\ UNCHANGED <<op, told, over, state>>
         [] f = "qout"  -> /\ ex = 0 /\ r >= 0 /\ r <= Cardinality(Of(x))
                           /\ (state[x] = "closed" /\ dead = 0 /\ \A k \in Of(x) : Settled(k) /\ ~Silent(k)) => r = 0
                           /\ UNCHANGED <<op, told, over, state>>
         [] f = "check" -> /\ \/ ex = 0 /\ told' = told
                              \/ ex # 0 /\ ex = dead /\ ~told /\ told' = TRUE
                           /\ UNCHANGED <<op, over, state>>
         [] f = "end"   -> /\ ex = (IF dead # 0 /\ ~told THEN dead ELSE 0)
                           /\ told' = (told \/ ex # 0) /\ over' = TRUE
                           /\ Top(1) = 0
                           /\ dead # 0 \/ \A y \in Files : AllSettled(y, 0)
                           /\ UNCHANGED <<op, state>>
         [] OTHER -> ex = 0 /\ UNCHANGED <<op, told, over, state>>

\* ---- the handlers
Registering(k) == call.k = k /\ call.f \in {"read", "write", "open", "close"}
Deliverable(t, k) ==
  /\ k \in DOMAIN op /\ op[k].st = "new"
  /\ IF t = 1 THEN dead = 0 /\ ~over /\ Top(1) = 0 /\ InTurn(k)
     ELSE IF Top(0) = 0 THEN Registering(k) ELSE op[k].by = Top(0)
Cb(t, k, d, r) ==
  /\ Deliverable(t, k) /\ op[k].e = 0 /\ Visible(k)
  /\ d = op[k].d /\ r = op[k].r
  /\ Set(k, "run") /\ Push(t, k)
  /\ UNCHANGED <<order, size, pos, disk, exists, state, dead, told, pend, call, over>>
CbEnd(t, k, ex) ==
  /\ Top(t) = k /\ op[k].st = "run"
  /\ ex = (IF op[k].m \in {"t", "u"} THEN 77 ELSE 0)
  /\ Set(k, IF op[k].m = "u" THEN "threw" ELSE "done")
  /\ IF op[k].m = "u" THEN UNCHANGED running ELSE Pop(t)
  /\ dead' = IF op[k].m = "t" /\ t = 1 THEN 77 ELSE dead
  /\ pend' = IF op[k].m = "t" /\ t = 0 THEN 77 ELSE pend
  /\ UNCHANGED <<order, size, pos, disk, exists, state, told, call, over>>
Er(t, k, e) ==
  /\ \/ /\ Top(t) = k /\ op[k].st = "threw" /\ e = 77
        /\ Pop(t)
     \/ /\ Deliverable(t, k) /\ op[k].e # 0 /\ e = op[k].e /\ op[k].f = "read" /\ Own(op[k].m)
        /\ UNCHANGED running
  /\ Set(k, "done")
  /\ UNCHANGED <<order, size, pos, disk, exists, state, dead, told, pend, call, over>>
\* an error nobody handles ends the loop
Die(k) ==
  /\ Deliverable(1, k) /\ op[k].e # 0
  /\ ~(op[k].f = "read" /\ Own(op[k].m) /\ ~Registering(k))
  /\ Set(k, "done") /\ dead' = op[k].e
  /\ UNCHANGED <<order, size, pos, disk, exists, state, told, running, pend, call, over>>
\* a handler issues a read of its own
Chain(t, k, x, n) ==
  /\ Top(t) # 0 /\ IssueRead(k, x, n, "h", 0, Top(t))
  /\ UNCHANGED <<dead, told, running, pend, call, over>>
\* what the file holds in the end
Content(x, d) ==
  /\ UNCHANGED fvars
  /\ (dead = 0 \/ \A k \in Of(x) : op[k].f \in {"write", "open"} => op[k].st = "done" /\ op[k].e = 0)
        => d = (IF exists[x] THEN disk[x] ELSE <<-1>>)
=============================================================================
