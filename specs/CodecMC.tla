------------------------------- MODULE CodecMC -------------------------------
(* The encoder as a machine that is fed blocks, with its three states; the    *)
(* decoder with four: whatever the blocks, the result is that of the whole.   *)
EXTENDS Codec, TLC
CONSTANTS Bytes, MaxLen
VARIABLES fed, out, step, rest    \* bytes fed, characters out, step 0..2 and left over bits
MCInit == fed = <<>> /\ out = <<>> /\ step = 0 /\ rest = 0
Feed(b) == /\ Len(fed) < MaxLen /\ fed' = Append(fed, b)
           /\ CASE step = 0 -> out' = Append(out, Chars[b \div 4]) /\ rest' = (b % 4) * 16 /\ step' = 1
                [] step = 1 -> out' = Append(out, Chars[rest + b \div 16]) /\ rest' = (b % 16) * 4 /\ step' = 2
                [] step = 2 -> out' = out \o <<Chars[rest + b \div 64], Chars[b % 64]>> /\ rest' = 0 /\ step' = 0
End == out \o (CASE step = 0 -> <<>> [] step = 1 -> <<Chars[rest], Pad, Pad>> [] step = 2 -> <<Chars[rest], Pad>>)
MCSpec == MCInit /\ [][\E b \in Bytes : Feed(b)]_<<fed, out, step, rest>>
Whole == End = Enc(fed)
RoundTrip == Dec(Enc(fed)) = fed /\ (Len(fed) % 3 = 0 => Len(Enc(fed)) * 3 = 4 * Len(fed))
Noise == Dec(<<32>> \o Enc(fed) \o <<10>>) = fed
\* a section followed by its own checksum has checksum zero
Residue == Crc(fed \o Bytes4(Crc(fed))) = <<0, 0>>
=============================================================================
