---------------------------- MODULE SpecialFiles ----------------------------
(***************************************************************************)
(* The attributes file: version 100, a word of flags, then for each kind of *)
(* attribute present one value per file, in the order CRC32 (4 bytes), time *)
(* (8), MD5 (16), patch bits (1 bit, lowest first).                         *)
(***************************************************************************)
EXTENDS NameList
CRC == 1
TIME == 2
MD5S == 4
PATCH == 8
HeaderLen == 8
LowFlags(d) == d[5] % 16
Has(f, bit) == (f \div bit) % 2 = 1
Ceil8(n) == (n + 7) \div 8
Width(f, bit, w) == IF Has(f, bit) THEN w ELSE 0
NeedLen(f, n) == HeaderLen + n * (Width(f, CRC, 4) + Width(f, TIME, 8) + Width(f, MD5S, 16)) + (IF Has(f, PATCH) THEN Ceil8(n) ELSE 0)
OffCrc == HeaderLen
OffTime(f, n) == OffCrc + n * Width(f, CRC, 4)
OffMd5(f, n) == OffTime(f, n) + n * Width(f, TIME, 8)
OffPatch(f, n) == OffMd5(f, n) + n * Width(f, MD5S, 16)
Pow2 == <<1, 2, 4, 8, 16, 32, 64, 128>>

WellFormed(d, n) == /\ Len(d) >= HeaderLen
                    /\ d[1] = 100 /\ d[2] = 0 /\ d[3] = 0 /\ d[4] = 0
                    /\ Len(d) >= NeedLen(LowFlags(d), n)
Field(d, off, w, i) == SubSeq(d, off + (i - 1) * w + 1, off + i * w)
\* what the file says about entry i (1-based); <<>> where the kind is not recorded
EntryAt(d, n, i) ==
  LET f == LowFlags(d) IN
  [crc |-> IF Has(f, CRC) THEN Field(d, OffCrc, 4, i) ELSE <<>>,
   time |-> IF Has(f, TIME) THEN Field(d, OffTime(f, n), 8, i) ELSE <<>>,
   md5 |-> IF Has(f, MD5S) THEN Field(d, OffMd5(f, n), 16, i) ELSE <<>>,
   patch |-> IF Has(f, PATCH) THEN <<(d[OffPatch(f, n) + ((i - 1) \div 8) + 1] \div Pow2[((i - 1) % 8) + 1]) % 2>> ELSE <<>>]
Entries(d, n) == [i \in 1..n |-> EntryAt(d, n, i)]
FlagWord(d) == <<d[8] * 256 + d[7], d[6] * 256 + d[5]>>

\* the bytes that record given entries (patch bits beyond the last file are clear)
SameContent(a, d, n) == /\ Len(a) = NeedLen(LowFlags(d), n) /\ WellFormed(a, n)
                        /\ SubSeq(a, 1, 8) = SubSeq(d, 1, 8)
                        /\ Entries(a, n) = Entries(d, n)
Parsed(g, d, n) == /\ g.n = n /\ ~g.beyond
                   /\ g.flags = FlagWord(d)
                   /\ LET f == LowFlags(d) IN g.kinds = <<Has(f, CRC), Has(f, TIME), Has(f, MD5S), Has(f, PATCH)>>
                   /\ g.items = Entries(d, n)
=============================================================================
