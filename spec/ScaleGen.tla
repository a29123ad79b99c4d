------------------------------ MODULE ScaleGen ------------------------------
(* Sizes and options of large archives (see Scale). *)
EXTENDS NameDraw, Json, IOUtils, CSV
VARIABLES hist, left
PROFILE == IOEnv.PROFILE
Chance(k, n) == RandomElement(1..n) <= k
Counts == <<60, 70, 127, 128, 129, 130, 200, 254, 255, 256, 257, 300, 510, 511, 512, 513, 520, 700, 1023, 1025, 1300, 2050, 3000>>
Depths == <<15, 16, 17, 31, 33, 63, 64, 65, 66, 100, 127, 128, 129, 130, 200, 255, 256, 257, 258, 300, 511, 512, 513, 600, 1023, 1024, 1025, 1030, 2049, 4097>>
Deeper == <<300, 1030, 9000, 20000, 65535, 65536, 65537, 66000>>
Few == <<0, 1, 2, 5>>
Many == PROFILE \in {"c02", "c03"}
Deepy == PROFILE \in {"c05"}
Huge == IOEnv.HUGE = "1"
Stems == <<<<102>>, <<85, 110, 105, 116, 92>>, <<100, 47, 115, 117, 98, 92, 110>>, <<46>>>>
Stem(z) == IF Chance(1, 3) THEN SubSeq(DrawnName(0), 1, 1) \o <<95>> ELSE Pick(Stems)
Methods == IF PROFILE = "c09" THEN <<0, 2, 2, 16>> ELSE IF PROFILE = "c08" THEN <<0, 2, 2, 16, 8>> ELSE <<0, 2, 2, 8, 16, 18, 32>>
Op(z) ==
  LET deep == Deepy \/ (~Many /\ Chance(1, 2))
      \* a few sectors of the larger sizes
      wide == deep /\ PROFILE \in {"c01", "c05"} /\ Chance(1, 12)
      sh == IF wide THEN Pick(<<9, 10, 11, 12>>) ELSE IF PROFILE = "c05" THEN Pick(<<0, 0, 0, 1>>) ELSE Pick(<<0, 0, 0, 0, 1, 3>>)
      m == IF ~deep THEN 0 ELSE IF wide THEN Pick(<<1, 2, 3, 5>>) ELSE IF Huge THEN Pick(Deeper) ELSE Pick(Depths)
      n == IF deep THEN Pick(Few) ELSE IF Huge THEN Pick(<<10000, 33000, 65530, 65536, 66000>>) ELSE Pick(Counts)
  IN [op |-> "scale", by |-> IF PROFILE = "c08" THEN "other" ELSE "lib", profile |-> PROFILE, ver |-> IF PROFILE = "c08" THEN RandomElement(1..2) ELSE RandomElement(1..4), shift |-> sh,
      n |-> n, stem |-> Stem(0), step |-> Pick(<<0, 1, 3, 7>>), mod |-> Pick(<<1, 5, 40, 600>>), method |-> Pick(Methods), enc |-> RandomElement(0..2),
      crc |-> PROFILE = "c05" \/ Chance(1, 2), list |-> PROFILE = "c03" \/ Chance(1, 2),
      m |-> m, tail |-> Pick(<<0, 1, 5, 511>>), kind |-> IF PROFILE = "c05" THEN Pick(<<"rand", "rand", "mix", "sect">>) ELSE Pick(<<"rand", "rand", "text", "mix", "sect", "ramp">>),
      pack |-> Chance(3, 4), seed |-> RandomElement(0..999999)]
Init == hist = <<>> /\ left = 1
GNext == left > 0 /\ left' = left - 1 /\ \E o \in {Op(0)} : hist' = <<o>>
GSpec == Init /\ [][GNext]_<<hist, left>>
Over == left = 0
Emit == Over => CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.OUT)
=============================================================================
