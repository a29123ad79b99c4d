----------------------------- MODULE MCSpecial -----------------------------
(***************************************************************************)
(* Design check of both formats.  Attributes: for every set of kinds and    *)
(* count, a writer that appends arrays produces exactly NeedLen bytes and   *)
(* the reader recovers every entry (fields do not overlap).  Name list:     *)
(* writing representable names one per line and parsing returns them, for   *)
(* every mix of line ends.                                                  *)
(***************************************************************************)
EXTENDS SpecialFiles, FiniteSets
CONSTANTS MaxN, MaxChars, MaxNames
VARIABLES f, n, k, out, names, text

\* one distinct byte value per field position, so that any overlap shows
Mark(kind, i, b) == (kind * 61 + i * 16 + b * 3) % 256
Patched(i) == i % 3 = 1
Arr(kind, w) == FoldLeft(LAMBDA a, i : a \o [b \in 1..w |-> Mark(kind, i, b)], <<>>, [i \in 1..n |-> i])
Bits == [j \in 1..Ceil8(n) |-> FoldLeft(LAMBDA a, b : IF (j - 1) * 8 + b <= n /\ Patched((j - 1) * 8 + b) THEN a + Pow2[b] ELSE a, 0, <<1, 2, 3, 4, 5, 6, 7, 8>>)]
Section(kk) == CASE kk = 1 -> IF Has(f, CRC) THEN Arr(1, 4) ELSE <<>>
                 [] kk = 2 -> IF Has(f, TIME) THEN Arr(2, 8) ELSE <<>>
                 [] kk = 3 -> IF Has(f, MD5S) THEN Arr(3, 16) ELSE <<>>
                 [] OTHER -> IF Has(f, PATCH) THEN Bits ELSE <<>>
Init == /\ f \in 0..15 /\ n \in 0..MaxN /\ k = 0 /\ out = <<100, 0, 0, 0, f, 0, 0, 0>>
        /\ names = <<>> /\ text = <<>>
WriteSection == k < 4 /\ k' = k + 1 /\ out' = out \o Section(k + 1) /\ UNCHANGED <<f, n, names, text>>
Chars == {97, 35, 59, 32, 13}
Words == UNION {[1..c -> Chars] : c \in 1..MaxChars}
AddName == /\ f = 0 /\ n = 0 /\ k = 4 /\ Len(names) < MaxNames
           /\ \E w \in Words, eol \in {<<10>>, <<13, 10>>, <<32, 10, 10>>} :
                /\ Representable(w)
                /\ names' = Append(names, w) /\ text' = text \o w \o eol
           /\ UNCHANGED <<f, n, k, out>>
Next == WriteSection \/ AddName

Complete == k = 4 => /\ Len(out) = NeedLen(f, n) /\ WellFormed(out, n)
                     /\ \A i \in 1..n : EntryAt(out, n, i) =
                          [crc |-> IF Has(f, CRC) THEN [b \in 1..4 |-> Mark(1, i, b)] ELSE <<>>,
                           time |-> IF Has(f, TIME) THEN [b \in 1..8 |-> Mark(2, i, b)] ELSE <<>>,
                           md5 |-> IF Has(f, MD5S) THEN [b \in 1..16 |-> Mark(3, i, b)] ELSE <<>>,
                           patch |-> IF Has(f, PATCH) THEN <<IF Patched(i) THEN 1 ELSE 0>> ELSE <<>>]
TooShort == k = 4 /\ Len(out) > 8 => ~WellFormed(SubSeq(out, 1, Len(out) - 1), n)
ListRoundTrip == ParseList(text) = names
=============================================================================
