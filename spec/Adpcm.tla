------------------------------- MODULE Adpcm -------------------------------
(***************************************************************************)
(* The audio code (IMA ADPCM as used in MPQ archives).  A stream is a zero   *)
(* byte, the bit shift, one 16-bit sample per channel and then codes, the    *)
(* channels taking turns:                                                    *)
(*   128  repeat the channel's sample, one step index down                   *)
(*   129  eight step indexes up, the channel keeps its turn                  *)
(*   else move by the shifted step plus the step fractions named by bits     *)
(*        0..5, downwards when bit 6 is set                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

StepSize == <<7, 8, 9, 10, 11, 12, 13, 14, 16, 17, 19, 21, 23, 25, 28, 31, 34, 37, 41, 45, 50, 55, 60, 66, 73, 80, 88, 97, 107, 118, 130,
  143, 157, 173, 190, 209, 230, 253, 279, 307, 337, 371, 408, 449, 494, 544, 598, 658, 724, 796, 876, 963, 1060, 1166, 1282, 1411, 1552,
  1707, 1878, 2066, 2272, 2499, 2749, 3024, 3327, 3660, 4026, 4428, 4871, 5358, 5894, 6484, 7132, 7845, 8630, 9493, 10442, 11487, 12635,
  13899, 15289, 16818, 18500, 20350, 22385, 24623, 27086, 29794, 32767>>
StepMove == <<-1, 0, -1, 4, -1, 2, -1, 6, -1, 1, -1, 5, -1, 3, -1, 7, -1, 1, -1, 5, -1, 3, -1, 7, -1, 2, -1, 4, -1, 6, -1, 8>>
StartIndex == 44
Clip(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
Signed16(lo, hi) == LET v == lo + 256 * hi IN IF v >= 32768 THEN v - 65536 ELSE v
HasBit(c, k) == (c \div 2^k) % 2 = 1

Shifted(step, shift) == IF shift > 20 THEN 0 ELSE step \div 2^shift
Moved(prev, c, step, shift) ==
  LET part(k) == IF HasBit(c, k) THEN step \div 2^k ELSE 0
      d == Shifted(step, shift) + part(0) + part(1) + part(2) + part(3) + part(4) + part(5)
  IN Clip(IF HasBit(c, 6) THEN prev - d ELSE prev + d, -32768, 32767)

\* s: channel whose turn it was last, last sample and step index per channel, the samples so far and the step each was coded with
AdpcmStep(s, c, shift, channels, want) ==
  IF Len(s.out) >= want THEN s
  ELSE LET ch == (s.ch % channels) + 1
           step == StepSize[s.idx[ch] + 1]
       IN CASE c = 128 -> [s EXCEPT !.ch = ch, !.idx[ch] = IF @ > 0 THEN @ - 1 ELSE 0,
                                    !.out = Append(@, s.last[ch]), !.step = Append(@, step)]
            [] c = 129 -> [s EXCEPT !.idx[ch] = Clip(@ + 8, 0, 88)]
            [] OTHER -> LET v == Moved(s.last[ch], c, step, shift)
                        IN [s EXCEPT !.ch = ch, !.last[ch] = v, !.out = Append(@, v), !.step = Append(@, step),
                                     !.idx[ch] = Clip(@ + StepMove[(c % 32) + 1], 0, 88)]
HeadLen(channels) == 2 + 2 * channels
Whole(code, channels) == Len(code) >= HeadLen(channels)
\* the first samples stand in the head; codes are read until `want' samples are there
AdpcmRun(code, channels, want) ==
  LET head == [k \in 1..channels |-> Signed16(code[1 + 2 * k], code[2 + 2 * k])]
      start == [ch |-> channels, last |-> head, idx |-> [k \in 1..channels |-> StartIndex], out |-> head, step |-> [k \in 1..channels |-> 0]]
  IN FoldLeft(LAMBDA s, c : AdpcmStep(s, c, code[2], channels, want), start, SubSeq(code, HeadLen(channels) + 1, Len(code)))

\* what a compressor owes: each sample within an eighth of the step it was coded with (and rounding)
Near(raw, run) == Len(run.out) = Len(raw) /\ \A k \in DOMAIN raw : LET d == raw[k] - run.out[k] IN (IF d < 0 THEN -d ELSE d) <= run.step[k] \div 8 + 4
=============================================================================
