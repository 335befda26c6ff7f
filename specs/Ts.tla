---------------------------------- MODULE Ts ----------------------------------
(* MPEG-2 transport streams (ISO/IEC 13818-1): packets, how the packets of a  *)
(* stream become units again, program tables, PES packets, clock values, and  *)
(* what H.264 and AAC look like inside.                                       *)
EXTENDS Big, FiniteSets, TLC
C == INSTANCE Codec
Bit(x, n) == (x \div n) % 2
Byte(b, i) == IF i \in DOMAIN b THEN b[i] ELSE -1
\* 33 bits, in 90 kHz
Clock33 == BMul(BMul(BMul(BInt(32768), 32768), 4), 2)
Val33(a, b, c) == BAdd(BMul(BInt(a * 32768 + b), 32768), BInt(c))
Bad == [bad |-> TRUE]
\* ------------------------------------------------------------------ packets
Packet(b) ==
  IF Len(b) # 188 \/ Byte(b, 1) # 71 \/ b[2] >= 128 \/ b[4] >= 64 \/ (b[4] \div 16) % 4 = 0 THEN Bad
  ELSE LET af   == Bit(b[4], 32) = 1
           pay  == Bit(b[4], 16) = 1
           alen == IF af THEN b[5] ELSE 0
           from == IF af THEN 6 + alen ELSE 5
           fl   == IF af /\ alen > 0 THEN b[6] ELSE 0
           pcr  == Bit(fl, 16) = 1
       IN IF alen > 183 \/ (~pay /\ alen # 183) \/ (pcr /\ alen < 7) \/ (fl > 0 /\ fl % 16 > 0) THEN Bad
          ELSE [bad |-> FALSE, pid |-> (b[2] % 32) * 256 + b[3], start |-> Bit(b[2], 64) = 1, cc |-> b[4] % 16,
                pay |-> pay, jump |-> Bit(fl, 128) = 1, random |-> Bit(fl, 64) = 1,
                clock |-> IF pcr THEN <<BAdd(BMul(BInt(b[7] * 256 + b[8]), 131072), BInt(b[9] * 512 + b[10] * 2 + b[11] \div 128)), (b[11] % 2) * 256 + b[12]>> ELSE <<>>,
                data |-> IF pay THEN SubSeq(b, from, 188) ELSE <<>>]
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE IF Len(s) = 1 THEN s[1] ELSE Flat(SubSeq(s, 1, Len(s) \div 2)) \o Flat(SubSeq(s, Len(s) \div 2 + 1, Len(s)))
\* the packets are those of one unit, and the next ones of the stream
OneUnit(p, pid, cc) ==
  /\ p # <<>>
  /\ \A k \in DOMAIN p : p[k].pid = pid /\ p[k].pay /\ p[k].start = (k = 1) /\ p[k].cc = (cc + k - 1) % 16
UnitData(p) == Flat([k \in DOMAIN p |-> p[k].data])
\* ------------------------------------------------------------------ sections
\* the section that starts a unit, without its pointer, or <<>>
Section(d) ==
  IF Len(d) < 5 \/ 1 + d[1] + 3 > Len(d) THEN <<>>
  ELSE LET at == 2 + d[1]
           n  == (d[at + 1] % 16) * 256 + d[at + 2]
       IN IF n < 9 \/ n > 1021 \/ at + 2 + n > Len(d) THEN <<>> ELSE SubSeq(d, at, at + 2 + n)
GoodSection(s, id) ==
  /\ Len(s) >= 12 /\ s[1] = id /\ s[2] >= 128 /\ Bit(s[2], 64) = 0
  /\ s[6] % 2 = 1 /\ s[7] = 0 /\ s[8] = 0
  /\ C!Crc(s) = <<0, 0>>
\* programs: sequence of number and PID
Programs(s) == [k \in 1..((Len(s) - 12) \div 4) |-> <<s[5 + 4 * k] * 256 + s[6 + 4 * k], (s[7 + 4 * k] % 32) * 256 + s[8 + 4 * k]>>]
RECURSIVE StreamsAt(_, _)
StreamsAt(s, at) == IF at > Len(s) - 4 THEN <<>>
                    ELSE IF at + 4 > Len(s) - 4 THEN <<<<-1, -1>>>>
                    ELSE <<<<(s[at + 1] % 32) * 256 + s[at + 2], s[at]>>>> \o StreamsAt(s, at + 5 + (s[at + 3] % 16) * 256 + s[at + 4])
\* the program: number, PID of the clock, streams as PID and type
Map(s) == [program |-> s[4] * 256 + s[5], clock |-> (s[9] % 32) * 256 + s[10], streams |-> StreamsAt(s, 13 + (s[11] % 16) * 256 + s[12])]
\* ------------------------------------------------------------------ PES
Stamp(d, at, tag) == IF d[at] \div 16 # tag \/ d[at] % 2 # 1 \/ d[at + 2] % 2 # 1 \/ d[at + 4] % 2 # 1 THEN <<>>
                     ELSE <<Val33((d[at] \div 2) % 8, d[at + 1] * 128 + d[at + 2] \div 2, d[at + 3] * 128 + d[at + 4] \div 2)>>
\* times are <<>> or <<value>>
Pes(d) ==
  IF Len(d) < 9 \/ SubSeq(d, 1, 3) # <<0, 0, 1>> \/ d[7] \div 64 # 2 THEN Bad
  ELSE LET flags == d[8]
           hl == d[9]
           p == Bit(flags, 128) = 1
           q == Bit(flags, 64) = 1
           need == (IF p THEN 5 ELSE 0) + (IF q THEN 5 ELSE 0)
           n == d[5] * 256 + d[6]
       IN IF flags % 64 # 0 \/ (q /\ ~p) \/ hl < need \/ Len(d) < 9 + hl \/ (n > 0 /\ n + 6 # Len(d)) \/ (n = 0 /\ d[4] \div 16 # 14) THEN Bad
          ELSE LET a == IF p THEN Stamp(d, 10, IF q THEN 3 ELSE 2) ELSE <<>>
                   b == IF q THEN Stamp(d, 15, 1) ELSE <<>>
               IN IF (p /\ a = <<>>) \/ (q /\ b = <<>>) THEN Bad
                  ELSE [bad |-> FALSE, id |-> d[4], pts |-> a, dts |-> b, body |-> SubSeq(d, 10 + hl, Len(d))]
\* ------------------------------------------------------------------ times
\* 100 ns to ticks of 90 kHz
Ticks(t) == BDiv(BMul(t, 9), 1000)
RECURSIVE Wrapped(_)
Wrapped(x) == IF BLt(x, Clock33) THEN x ELSE LET q == BDivBig(x, Clock33) IN BSub(x, BMul(Clock33, BNat(q)))
Near(a, b) == LET d == IF BLe(a, b) THEN BSub(b, a) ELSE BSub(a, b)
              IN BLe(d, BInt(90)) \/ (BLt(d, Clock33) /\ BLe(BSub(Clock33, d), BInt(90)))
\* a value of 90 kHz is the time t[1] - t[2], to a millisecond
Tells(v, t) == v # <<>> /\ Near(v[1], IF BLe(t[2], t[1]) THEN Wrapped(Ticks(BSub(t[1], t[2])))
                                     ELSE Wrapped(BSub(Clock33, Wrapped(Ticks(BSub(t[2], t[1]))))))
\* ------------------------------------------------------------------ H.264, AAC
StartCode == <<0, 0, 0, 1>>
Annexb(nals) == Flat([k \in DOMAIN nals |-> StartCode \o nals[k]])
Picture(sync, sps, pps, nals) == StartCode \o <<9, 240>> \o (IF sync THEN Annexb(<<sps, pps>>) ELSE <<>>) \o Annexb(nals)
Rates == <<96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350>>
RateIndex(r) == CHOOSE k \in 0..12 : Rates[k + 1] = r
ChannelIndex(c) == IF c = 8 THEN 7 ELSE c
Adts(object, rate, channels, n) ==
  LET l == n + 7
      c == ChannelIndex(channels)
  IN <<255, 241, (object - 1) * 64 + RateIndex(rate) * 4 + c \div 4, (c % 4) * 64 + l \div 2048, (l \div 8) % 256, (l % 8) * 32 + 31, 252>>
===============================================================================
