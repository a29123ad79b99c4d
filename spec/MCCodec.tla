------------------------------ MODULE MCCodec ------------------------------
(***************************************************************************)
(* Design check of the zero-run code and of the rule that tells compressed  *)
(* from stored-as-is: for every data string over Alphabet up to MaxLen, the *)
(* encoder's code decodes to the data, and what is stored reads back.       *)
(* The code is scaled down: controls 0..Lim-1 are literal counts,           *)
(* Lim+1..Lim+MaxRun zero runs, EndMark the end.                            *)
(***************************************************************************)
EXTENDS Codec, FiniteSets
CONSTANTS Alphabet, MaxLen, Lim, MaxRun, EndMark, Gain
VARIABLE x
METHOD == 3

\* the encoder: split into maximal runs, runs into chunks
RECURSIVE Enc(_, _)
RunLen(s, i, z) == LET ok(j) == (s[j] = 0) = z
                       ext == {j \in i..Len(s) : \A k \in i..j : ok(k)}
                   IN  Cardinality(ext)

Chunk(n, m) == IF n > m THEN m ELSE n
Enc(s, i) ==
  IF i > Len(s) THEN <<EndMark>>
  ELSE LET z == s[i] = 0
           n == Chunk(RunLen(s, i, z), IF z THEN MaxRun ELSE Lim - 1)
       IN  (IF z THEN <<Lim + n>> ELSE <<n>> \o SubSeq(s, i, i + n - 1)) \o Enc(s, i + n)

\* store: keep the code only when it gains; read: decide by the length alone
Store(s) == LET c == Enc(s, 1) IN IF Len(c) + Gain >= Len(s) THEN s ELSE <<METHOD>> \o c
Read(st, n) == IF Len(st) < n THEN SparseDecode(SubSeq(st, 2, Len(st)), n, Lim, EndMark) ELSE st

Init == x = <<>>
Next == Len(x) < MaxLen /\ \E b \in Alphabet : x' = Append(x, b)
CodeRoundTrip == SparseDec(Enc(x, 1), Lim, EndMark).out = x
StoreRoundTrip == Read(Store(x), Len(x)) = x
StrictlySmaller == LET s == Store(x) IN s = x \/ (Len(s) < Len(x) /\ s[1] = METHOD)
=============================================================================
