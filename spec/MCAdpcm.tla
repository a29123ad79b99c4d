------------------------------ MODULE MCAdpcm ------------------------------
(***************************************************************************)
(* Design check of the audio code: for every sequence of samples from Values *)
(* up to MaxLen and every number of channels, the encoder's stream decodes   *)
(* to as many samples, each near the one put in, and encoder and decoder     *)
(* agree on the last samples.  Variant names a wrong encoder.                *)
(***************************************************************************)
EXTENDS Adpcm
CONSTANTS MaxLen, MaxChannels, Variant
VARIABLES x, channels
Values == {-32768, -3000, -40, -1, 0, 7, 600, 32767}
LEVEL == 5
SHIFT == LEVEL - 1

\* greedy choice of the fractions step, step/2, step/4, step/8 within the difference
RECURSIVE Bits(_, _, _, _)
Bits(k, step, left, c) == IF k = SHIFT THEN c
                          ELSE LET p == step \div 2^k IN IF p <= left THEN Bits(k + 1, step, left - p, c + 2^k) ELSE Bits(k + 1, step, left, c)
RECURSIVE Up(_, _)
\* how many raising codes, and the index after them
Up(diff, idx) == IF idx >= 88 \/ diff <= 2 * StepSize[idx + 1] THEN <<0, idx>>
                 ELSE LET r == Up(diff, Clip(idx + 8, 0, 88)) IN <<r[1] + 1, r[2]>>
Two(v) == LET u == IF v < 0 THEN v + 65536 ELSE v IN <<u % 256, u \div 256>>

EncOne(s, v) ==
  LET ch == (s.ch % channels) + 1
      d == v - s.last[ch]
      diff == IF d < 0 THEN -d ELSE d
      step == StepSize[s.idx[ch] + 1]
  IN IF diff < step \div 2^LEVEL
     THEN [s EXCEPT !.ch = ch, !.idx[ch] = IF @ > 0 THEN @ - 1 ELSE 0, !.code = Append(@, 128)]
     ELSE LET up == IF Variant = "noraise" THEN <<0, s.idx[ch]>> ELSE Up(diff, s.idx[ch])
              st == StepSize[up[2] + 1]
              c == Bits(0, st, diff, 0) + (IF d < 0 THEN 64 ELSE 0)
              p == IF Variant = "openloop" THEN v ELSE Moved(s.last[ch], c, st, SHIFT)
          IN [s EXCEPT !.ch = IF Variant = "turn" /\ up[1] > 0 THEN (ch % channels) + 1 ELSE ch, !.last[ch] = p,
                       !.idx[ch] = Clip(up[2] + StepMove[(c % 32) + 1], 0, 88), !.code = @ \o [k \in 1..up[1] |-> 129] \o <<c>>]
Encode ==
  LET head == SubSeq(x, 1, channels)
      start == [ch |-> channels, last |-> head, idx |-> [k \in 1..channels |-> StartIndex],
                code |-> <<0, SHIFT>> \o FoldLeft(LAMBDA a, v : a \o Two(v), <<>>, head)]
  IN FoldLeft(EncOne, start, SubSeq(x, channels + 1, Len(x)))

Init == x = <<>> /\ channels \in 1..MaxChannels
Next == Len(x) < MaxLen /\ \E v \in Values : x' = Append(x, v) /\ UNCHANGED channels
Sound == Len(x) >= channels /\ Len(x) % channels = 0 =>
           LET enc == Encode
               run == AdpcmRun(enc.code, channels, Len(x))
           IN Near(x, run) /\ enc.last = run.last /\ enc.idx = run.idx
=============================================================================
