------------------------------ MODULE TextTrace ------------------------------
(* Strings: handles that share a text until they are assigned anew, and the   *)
(* operations on them; byte buffers; splitting and replacing.                 *)
EXTENDS TraceBase, Text
VARIABLE s
vars == <<tid, l, s>>
H == 1..4
\* s.h[i]: the text handle i refers to, 0 for none; s.b: the texts made so far
Null == <<-1>>
Of(x, i) == IF x.h[i] = 0 THEN Null ELSE x.b[x.h[i]]
Fresh(x, i, t) == [h |-> [x.h EXCEPT ![i] = Len(x.b) + 1], b |-> Append(x.b, t)]
Add(x, i, t) == [x EXCEPT !.b[x.h[i]] = @ \o t]
Set(x, i, t) == [x EXCEPT !.b[x.h[i]] = t]
B2S(p) == <<IF p THEN 1 ELSE 0>>
TruthWords == {<<49>>, <<116, 114, 117, 101>>, <<121, 101, 115>>, <<84, 82, 85, 69>>, <<84, 114, 117, 101>>}

\* the state after the operation and its result; st "ok" or "err"
R(x, r) == [x |-> x, r |-> r, st |-> "ok"]
Err(x) == [x |-> x, r |-> <<>>, st |-> "err"]
Str(e) ==
  LET x == s  i == e.h  t == e.t IN
  CASE e.op = "new"     -> R(Fresh(x, i, t), <<>>)
    [] e.op = "assign"  -> R(Fresh(x, i, t), <<>>)
    [] e.op = "empty"   -> R(Fresh(x, i, <<>>), <<>>)
    [] e.op = "null"    -> R([x EXCEPT !.h[i] = 0], <<>>)
    [] e.op = "copy"    -> R([x EXCEPT !.h[i] = x.h[e.g]], <<>>)
    [] e.op = "clone"   -> R(Fresh(x, i, Of(x, e.g)), <<>>)
    [] e.op = "add"     -> R(Add(x, i, t), <<>>)
    [] e.op = "addnull" -> R(x, <<>>)
    [] e.op = "append"  -> R(IF x.h[i] = 0 THEN Fresh(x, i, t) ELSE Add(x, i, t), <<>>)
    [] e.op = "addnum"  -> R(Add(x, i, t), <<>>)
    [] e.op = "addh"    -> R(Add(x, i, Of(x, e.g)), <<>>)
    [] e.op = "cat"     -> R(Fresh(x, i, Of(x, e.g) \o Of(x, e.n)), <<>>)
    [] e.op = "catlit"  -> R(Fresh(x, i, Of(x, e.g) \o t), <<>>)
    [] e.op = "litcat"  -> R(Fresh(x, i, t \o Of(x, e.g)), <<>>)
    [] e.op = "sub"     -> R(Fresh(x, i, Cut(Of(x, e.g), e.n, e.m)), <<>>)
    [] e.op = "find"    -> R(x, <<FindFrom(Of(x, i), t, e.n)>>)
    [] e.op = "rfind"   -> R(x, <<LastFrom(Of(x, i), t, e.n, -1)>>)
    [] e.op = "size"    -> R(x, <<Len(Of(x, i)), Len(Of(x, i))>>)
    [] e.op = "eq"      -> R(x, B2S(Of(x, i) = t))
    [] e.op = "eqh"     -> R(x, B2S(Of(x, i) = Of(x, e.g)))
    [] e.op = "less"    -> R(x, B2S(Less(Of(x, i), Of(x, e.g))))
    [] e.op = "isnull"  -> R(x, B2S(x.h[i] = 0))
    [] e.op = "toint"   -> IF ParseInt(Of(x, i)) = <<>> THEN Err(x) ELSE R(x, ParseInt(Of(x, i)))
    [] e.op = "tobool"  -> R(x, B2S(Of(x, i) \in TruthWords))
    [] e.op = "hexapp"  -> R(Add(x, i, HexText(t)), <<>>)
    [] e.op = "hexext"  -> R(x, UnHex(Of(x, i), e.n, e.m))
    [] e.op = "getbuf"  -> R(Add(x, i, t), <<>>)
    [] e.op = "clear"   -> R(Set(x, i, <<>>), <<>>)
    [] e.op = "fmt"     -> R(Add(x, i, t), <<>>)
    [] OTHER            -> [x |-> x, r |-> <<>>, st |-> "never"]

StrStep(e) == LET y == Str(e)
              IN /\ e.st = y.st
                 /\ (y.st = "ok" => e.r = y.r)
                 /\ \A i \in H : e.c[i] = Of(y.x, i)
                 /\ s' = y.x

\* splitting and replacing work on values
ValStep(e) == /\ e.st = "ok" /\ s' = s
              /\ CASE e.op = "split"   -> e.p = Pieces(e.t, e.u)
                   [] e.op = "replace" -> e.r = Replace(e.t, e.u, e.v)
                   [] OTHER            -> FALSE

\* buffers: s is the committed content; everything after it that was never written is zero
Buf(e) ==
  CASE e.op = "badd"   -> [x |-> s \o e.t, r |-> <<>>]
    [] e.op = "baddb"  -> [x |-> s \o s, r |-> <<>>]
    [] e.op = "bput"   -> [x |-> s \o e.t, r |-> <<>>]      \* prepare, write in place, commit
    [] e.op = "bprep"  -> [x |-> s, r |-> <<>>]
    [] e.op = "bset"   -> [x |-> [s EXCEPT ![e.n + 1] = e.t[1]], r |-> <<>>]
    [] e.op = "bat"    -> [x |-> s, r |-> <<s[e.n + 1]>>]
    [] e.op = "bread"  -> [x |-> s, r |-> Cut(s, e.m, e.n)]
    [] e.op = "breset" -> [x |-> <<>>, r |-> <<>>]
    [] e.op = "bback"  -> [x |-> SubSeq(s, 1, Len(s) - e.n), r |-> <<>>]
    [] OTHER           -> [x |-> s, r |-> <<"never">>]
BufStep(e) == LET y == Buf(e)
              IN /\ e.st = "ok"
                 /\ e.r = y.r
                 /\ e.c = y.x                       \* all that is committed
                 /\ e.full = Len(y.x)
                 /\ e.cap = e.full + e.free /\ e.free >= 0
                 /\ (e.op = "bprep" => e.free >= e.n)
                 /\ (e.op = "bread" /\ e.m < Len(s) => e.ok = 1)
                 /\ (e.op = "bread" /\ e.m > Len(s) => e.ok = 0)
                 /\ s' = y.x

TInit == TraceInit /\ s = IF T.mode = "buf" THEN <<>> ELSE [h |-> [i \in H |-> 0], b |-> <<>>]
TNext == /\ Advance
         /\ CASE T.mode = "str" -> StrStep(Ev)
              [] T.mode = "val" -> ValStep(Ev)
              [] T.mode = "buf" -> BufStep(Ev)
TSpec == TInit /\ [][TNext]_vars
=============================================================================
