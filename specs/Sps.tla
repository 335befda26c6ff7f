--------------------------------- MODULE Sps ---------------------------------
(* The picture size that an H.264 sequence parameter set describes: the bytes  *)
(* of the NAL unit without those put in to avoid start codes, read as bits     *)
(* and Exp-Golomb codes.                                                       *)
EXTENDS Integers, Sequences
\* the bytes after the NAL header with the bytes 3 that follow two zeros left out
RECURSIVE Payload(_, _, _)
Payload(n, k, zeros) ==
  IF k > Len(n) THEN <<>>
  ELSE IF n[k] = 3 /\ zeros >= 2 THEN Payload(n, k + 1, 0)
  ELSE <<n[k]>> \o Payload(n, k + 1, IF n[k] = 0 THEN zeros + 1 ELSE 0)
P2 == <<128, 64, 32, 16, 8, 4, 2, 1>>
\* bit p, counted from 0; a reader is [b, p, v]: the bytes, the next bit and the value read last
Bit(b, p) == IF p \div 8 >= Len(b) THEN 0 ELSE (b[(p \div 8) + 1] \div P2[(p % 8) + 1]) % 2
RECURSIVE Num(_, _, _), Lead(_, _)
Num(b, p, n) == IF n = 0 THEN 0 ELSE Num(b, p, n - 1) * 2 + Bit(b, p + n - 1)
Lead(b, p) == IF p >= 8 * Len(b) \/ Bit(b, p) = 1 THEN 0 ELSE 1 + Lead(b, p + 1)
U(r, n) == [r EXCEPT !.p = @ + n, !.v = Num(r.b, r.p, n)]
Skip(r, n) == [r EXCEPT !.p = @ + n]
Ue(r) == LET z == Lead(r.b, r.p) x == Num(r.b, r.p + z, z + 1) IN [r EXCEPT !.p = @ + 2 * z + 1, !.v = x - 1]
RECURSIVE Ues(_, _)
Ues(r, n) == IF n = 0 THEN r ELSE Ues(Ue(r), n - 1)
High == {100, 110, 122, 244, 44, 83, 86, 118, 128}
\* scaling matrices are left out: a set that has one is not in the scope
PictureSize(nal) ==
  LET b == Payload(nal, 2, 0)
      profile == b[1]
      r1 == Ue([b |-> b, p |-> 24, v |-> 0])
      rc == Ue(r1)
      chroma == IF profile \in High THEN rc.v ELSE 1
      r2 == IF profile \in High THEN LET x == IF rc.v = 3 THEN Skip(rc, 1) ELSE rc IN Skip(Ues(x, 2), 2) ELSE r1
      r3 == Ue(Ue(r2))
      r4 == IF r3.v = 0 THEN Ue(r3) ELSE IF r3.v = 1 THEN LET x == Ue(Ues(Skip(r3, 1), 2)) IN Ues(x, x.v) ELSE r3
      r5 == Skip(Ue(r4), 1)
      rw == Ue(r5)
      rh == Ue(rw)
      rf == U(rh, 1)
      rx == U(Skip(rf, (1 - rf.v) + 1), 1)
      c1 == Ue(rx) c2 == Ue(c1) c3 == Ue(c2) c4 == Ue(c3)
      ux == IF chroma \in {1, 2} THEN 2 ELSE 1
      uy == (IF chroma = 1 THEN 2 ELSE 1) * (2 - rf.v)
  IN [w |-> 16 * (rw.v + 1) - (IF rx.v = 1 THEN ux * (c1.v + c2.v) ELSE 0),
      h |-> 16 * (rh.v + 1) * (2 - rf.v) - (IF rx.v = 1 THEN uy * (c3.v + c4.v) ELSE 0)]
==============================================================================
