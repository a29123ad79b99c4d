------------------------------ MODULE LayoutGen -----------------------------
(***************************************************************************)
(* Generates layouts.  c08: everything the format leaves to the writer is   *)
(* drawn (what precedes the archive, the order and spacing of its parts,    *)
(* the fill of the tables, how each file is kept); an independent encoder   *)
(* writes it.  c09: options and files for the library's own writer.         *)
(***************************************************************************)
EXTENDS NameDraw, Json, IOUtils, CSV
VARIABLES hist, left
PROFILE == IOEnv.PROFILE
Pool == JsonDeserialize(IOEnv.DATA \o "/names.json")
Chance(k, n) == RandomElement(1..n) <= k
Numbered(k) == <<102, 105, 108, 101>> \o <<48 + ((k \div 100) % 10), 48 + ((k \div 10) % 10), 48 + (k % 10)>>
Name(z) == LET k == RandomElement(1..20) IN
           CASE k <= 7 -> Numbered(RandomElement(0..999)) [] k = 8 -> Pick(Pool.odd) [] k \in 9..12 -> Pick(<<<<100, 92>>, <<97, 47, 98, 92>>, <<85, 110, 105, 116, 115, 92>>>>) \o Numbered(RandomElement(0..999))
             [] k \in 13..14 -> Pick(Pool.chain15) [] k \in 15..16 -> DrawnName(0) [] OTHER -> Pick(Pool.plain)
Sizes(s) == <<0, 1, 2, 3, 4, 5, 7, 8, 15, 40, 100, 203, s - 1, s, s + 1, s + 3, 2 * s - 1, 2 * s, 2 * s + 1, 2 * s + 2, RandomElement(0..(2 * s))>>
Body(s) == [kind |-> Pick(<<"zero", "const", "text", "text", "text", "rand", "mix", "runs", "few", "ramp", "sect", "sect">>), len |-> Pick(Sizes(s)), seed |-> RandomElement(0..99999)]

-----------------------------------------------------------------------------
\* layouts for the encoder
Shift(z) == Pick(<<0, 0, 0, 0, 1>>)
File(s) == [name |-> Name(0), loc |-> Pick(<<0, 0, 0, 0, 1033, 1031>>), plat |-> Pick(<<0, 0, 0, 0, 1>>), body |-> Body(s),
            how |-> Pick(<<"raw", "zlib", "zlib", "zlib", "bzip2", "pkware", "implode", "mixed">>), unit |-> Chance(2, 5), enc |-> Pick(<<0, 0, 1, 1, 2, 2>>),
            trail |-> Chance(1, 5),              \* a checksum sector after the last one
            pad |-> Pick(<<0, 0, 0, 4, 9>>),      \* unused bytes between sectors
            alias |-> IF Chance(1, 10) THEN <<Name(0)>> ELSE <<>>,
            gap |-> Pick(<<0, 0, 0, 1, 3, 16, 50>>), far |-> Chance(1, 3), drop |-> Chance(1, 7)]
Layout(z) ==
  LET sh == Shift(0)
      n == Pick(<<0, 1, 2, 3, 4, 5, 6, 8>>)
      ver == Pick(<<1, 1, 2, 2, 3, 4>>)
  IN [op |-> "layout", ver |-> ver, shift |-> sh, hextra |-> Pick(<<0, 0, 0, 0, 16, 64>>),
      prefix |-> Pick(<<0, 0, 0, 1, 2, 5>>), lead |-> IF Chance(1, 6) THEN Pick(<<7, 127, 128, 2047, 2048, 8191, 33000, RandomElement(1..4000)>>) ELSE 0,   \* in sectors of 512
      junk |-> Pick(<<"zero", "rand", "rand", "bait", "bait">>),
      user |-> IF Chance(1, 4) THEN <<Pick(<<512, 1024, 1536, 16, 20, 100, 528, 700, 1100>>)>> ELSE <<>>,      \* distance from user data to header
      far |-> ver >= 2 /\ Chance(1, 3), hi |-> Chance(1, 2), hifill |-> Chance(1, 4),
      fill |-> Pick(<<"tight", "tight", "some", "some", "loose">>), dead |-> Pick(<<0, 0, 1, 2, 3>>), spare |-> Pick(<<0, 0, 1, 2>>),
      order |-> Pick(<<"front", "back", "mid", "mid", "mid">>), after |-> Pick(<<0, 0, 1, 700>>),
      list |-> Pick(<<"none", "crlf", "lf", "semi", "extra">>), listhow |-> Pick(<<"raw", "zlib">>), listenc |-> RandomElement(0..2),
      files |-> [k \in 1..n |-> File(512 * 2^sh)], seed |-> RandomElement(0..999999)]

\* options and files for the library's writer
Added(s) == [name |-> Name(0), loc |-> Pick(<<0, 0, 0, 1033>>), body |-> Body(s), method |-> Pick(<<0, 2, 2, 2, 16, 8, 18, 32>>), enc |-> RandomElement(0..2)]
Build(z) == LET sh == Shift(0) IN
  [op |-> "build", ver |-> RandomElement(1..4), shift |-> sh, crc |-> Chance(1, 2), tcomp |-> Chance(1, 3), tmethod |-> Pick(<<2, 16>>), list |-> Pick(<<"gen", "gen", "none">>),
   files |-> [k \in 1..Pick(<<0, 1, 2, 3, 5, 7, 9, 12>>) |-> Added(512 * 2^sh)], seed |-> RandomElement(0..999999)]

Init == hist = <<>> /\ left = 1
GNext == left > 0 /\ left' = left - 1 /\ \E o \in {IF PROFILE = "c09" THEN Build(0) ELSE Layout(0)} : hist' = <<o>>
GSpec == Init /\ [][GNext]_<<hist, left>>
Over == left = 0
Emit == Over => CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.OUT)
=============================================================================
