------------------------------ MODULE CodecTrace ------------------------------
EXTENDS TraceBase, Codec
VARIABLE s     \* everything fed to the codec so far
vars == <<tid, l, s>>
Pre(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Step(e) ==
  \* o: all that has been put out so far
  CASE e.op = "eblock" -> LET f == s \o e.d IN s' = f /\ Pre(e.o, Enc(f)) /\ Len(e.o) >= (4 * Len(f)) \div 3
    [] e.op = "eend"   -> e.o = Enc(s) /\ s' = <<>>
    [] e.op = "dblock" -> LET f == s \o e.d IN s' = f /\ e.o = Dec(f)
    [] e.op = "dend"   -> s' = <<>>
    [] e.op = "crc"    -> s' = s /\ e.o = Crc(e.d)
    [] OTHER -> FALSE
TInit == TraceInit /\ s = <<>>
TNext == Advance /\ Step(Ev)
TSpec == TInit /\ [][TNext]_vars
=============================================================================
