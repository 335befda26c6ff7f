-------------------------------- MODULE Queue --------------------------------
(* A queue of items, each with a body of n bytes, on one block of memory.     *)
(* State: the sequence of items held.  room: bytes for items; h: bytes an     *)
(* item takes besides its body.                                               *)
(*   fixed: an item for which there is no room is refused and nothing changes *)
(*   drop:  the oldest items give way to the new one                          *)
(*   grow:  there is always room                                              *)
(* Every operation is atomic: Call, Lin (it happens), Ret.                    *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
CONSTANTS Threads
VARIABLES q, pc
NoRes == [st |-> "?", id |-> 0, n |-> 0, out |-> 0]
Idle == [p |-> "idle", f |-> "", id |-> 0, n |-> 0, r |-> NoRes]
Res(st, id, n, out) == [st |-> st, id |-> id, n |-> n, out |-> out]
Item(i, k) == [id |-> i, n |-> k]
RECURSIVE Bytes(_, _)
Bytes(s, h) == IF s = <<>> THEN 0 ELSE Head(s).n + h + Bytes(Tail(s), h)
Largest(s, m) == CHOOSE x \in {m} \cup {s[i].n : i \in 1..Len(s)} : \A y \in {m} \cup {s[i].n : i \in 1..Len(s)} : y <= x
\* the room left is in at most two pieces, and what a wrap left unused is smaller than an item
Tight(s, k, room, h) == room - Bytes(s, h) < 2 * (Largest(s, k) + h)
Fits(s, k, room, h) == Bytes(s, h) + k + h <= room
Drop(s, j) == SubSeq(s, j + 1, Len(s))
\* the possible outcomes of a push: what is held after it, and the result
PushOut(kind, s, x, room, h) ==
  CASE kind = "grow"  -> {<<Append(s, x), "ok">>}
    [] kind = "fixed" -> (IF Fits(s, x.n, room, h) THEN {<<Append(s, x), "ok">>} ELSE {})
                         \cup (IF Tight(s, x.n, room, h) THEN {<<s, "no">>} ELSE {})
    [] OTHER -> {<<Append(Drop(s, j), x), "ok">> : j \in {i \in 0..Len(s) :
                    /\ Fits(Drop(s, i), x.n, room, h)
                    /\ \A i2 \in 0..(i - 1) : Tight(Drop(s, i2), x.n, room, h)}}
                \cup (IF x.n + h > room THEN {<<<<>>, "no">>, <<s, "no">>} ELSE {})
Apply(kind, s, c, room, h) ==
  CASE c.f = "push"  -> {<<o[1], Res(o[2], 0, 0, 0)>> : o \in PushOut(kind, s, Item(c.id, c.n), room, h)}
    [] c.f = "take"  -> (IF s = <<>> THEN {<<s, Res("none", 0, 0, 0)>>}
                         ELSE IF Head(s).n <= c.id THEN {<<Tail(s), Res("ok", Head(s).id, Head(s).n, 1)>>}
                         ELSE {<<s, Res("ok", Head(s).id, Head(s).n, 0)>>})   \* too long for the caller: stays
    [] c.f = "peek"  -> (IF s = <<>> THEN {<<s, Res("none", 0, 0, 0)>>} ELSE {<<s, Res("ok", Head(s).id, Head(s).n, 0)>>})
    [] c.f = "peek1" -> (IF s = <<>> THEN {<<s, Res("none", 0, 0, 0)>>} ELSE {<<s, Res("ok", 0, Head(s).n, 0)>>})
    [] c.f = "del"   -> (IF s = <<>> THEN {<<s, Res("none", 0, 0, 0)>>} ELSE {<<Tail(s), Res("ok", 0, 0, 0)>>})
    [] c.f = "clear" -> {<<<<>>, Res("ok", 0, 0, 0)>>}
    [] c.f = "size"  -> {<<s, Res("ok", 0, Len(s), 0)>>}
QInit == q = <<>> /\ pc = [t \in Threads |-> Idle]
Call(t, f, id, n) == pc[t].p = "idle" /\ pc' = [pc EXCEPT ![t] = [p |-> "called", f |-> f, id |-> id, n |-> n, r |-> NoRes]] /\ UNCHANGED q
Lin(t, kind, room, h) == /\ pc[t].p = "called"
                         /\ \E o \in Apply(kind, q, pc[t], room, h) :
                              /\ q' = o[1]
                              /\ pc' = [pc EXCEPT ![t] = [@ EXCEPT !.p = "done", !.r = o[2]]]
Ret(t, r) == pc[t].p = "done" /\ pc[t].r = r /\ pc' = [pc EXCEPT ![t] = Idle] /\ UNCHANGED q
=============================================================================
