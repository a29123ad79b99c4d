---------------------------- MODULE IntegrityGen ----------------------------
(***************************************************************************)
(* Generates damage histories: an archive, then rounds of damage followed   *)
(* by reads (c05) or reports (c06).  Places are drawn relative to parts of  *)
(* the archive; the harness records the bytes that really changed.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, CSV
VARIABLES hist, left
PROFILE == IOEnv.PROFILE
Pick(s) == s[RandomElement(1..Len(s))]
Chance(k, n) == RandomElement(1..n) <= k
Sector(bs) == 512 * 2^bs
Sizes(s) == <<1, 2, 3, 4, 5, 9, 64, 200, s - 1, s, s + 1, s + 2, 2 * s - 1, 2 * s, 2 * s + 3, 3 * s, 5 * s + 7, RandomElement(1..(6 * s)), RandomElement(1..(6 * s))>>
Kinds == <<"zero", "const", "text", "text", "rand", "rand", "mix", "runs", "few", "edge", "ramp", "sect", "sect">>
File(k, s, big) ==
  [len |-> IF big /\ Chance(1, 2) THEN 60000 + RandomElement(0..12000) ELSE Pick(Sizes(s)), kind |-> Pick(Kinds), seed |-> RandomElement(0..99999),
   method |-> Pick(<<0, 2, 2, 8, 16, 18, 32>>), enc |-> Pick(<<0, 0, 1, 2>>)]
Cfg(z) ==
  LET bs == Pick(<<0, 0, 0, 1, 3>>)
      big == PROFILE = "c06" /\ Chance(1, 2)
  IN [op |-> "cfg", ver |-> IF PROFILE = "c06" THEN Pick(<<4, 4, 4, 1, 2, 3>>) ELSE RandomElement(1..4), bs |-> bs, tcomp |-> Chance(1, 3), list |-> IF Chance(1, 2) THEN "gen" ELSE "none",
      crc |-> PROFILE = "c05" \/ Chance(1, 2),
      \* a signature file, placed between the others; its content signed, zero, random or too short
      sign |-> IF PROFILE = "c06" /\ Chance(2, 3) THEN Pick(<<"good", "good", "good", "good", "zero", "rand", "short">>) ELSE "no",
      \* a strong signature behind the archive, whole, cut short, or with another mark
      strong |-> IF PROFILE = "c06" /\ Chance(1, 4) THEN Pick(<<"rand", "rand", "zero", "one", "short", "mark">>) ELSE "no",
      at |-> RandomElement(0..3), pre |-> Pick(<<0, 0, 512, 1024, 66048>>), post |-> Pick(<<0, 0, 7, 300>>),
      files |-> [k \in 1..RandomElement(1..3) |-> File(k, Sector(bs), big)]]
Hows == <<"flip", "flip", "flip", "byte", "zero", "zero", "ones", "rand", "rand", "copy", "inc">>
Lens == <<1, 1, 1, 2, 3, 4, 4, 8, 16, 64, 300, 512, 513, 2000>>
Areas == IF PROFILE = "c05" THEN <<"all", "all", "all", "head", "tail", "sum", "sum", "sector", "sector", "sector">>
         ELSE <<"header", "digests", "hash", "block", "het", "bet", "data", "sig", "tables", "edge", "before", "after", "all">>
Hit(z) == [op |-> "hit", file |-> RandomElement(0..3), area |-> Pick(Areas), how |-> Pick(Hows), at |-> RandomElement(0..9999), n |-> Pick(Lens), seed |-> RandomElement(0..99999)]
SumHit(z) == [op |-> "hit", file |-> 0, area |-> "sum", how |-> Pick(<<"zero", "ones", "zero">>), at |-> 0, n |-> 100000, seed |-> 0]
DataHit(z) == [op |-> "hit", file |-> 0, area |-> "sector", how |-> Pick(<<"flip", "byte", "inc">>), at |-> RandomElement(0..9999), n |-> 1, seed |-> RandomElement(0..99999)]
Round(z) == LET k == RandomElement(1..12) IN
  IF PROFILE = "c05" /\ k = 1 THEN <<[op |-> "open"], [op |-> "trunc", at |-> RandomElement(0..9999)], [op |-> "readall", keep |-> TRUE], [op |-> "restore"]>>
  ELSE IF PROFILE = "c05" /\ k = 2 THEN <<SumHit(0), DataHit(0), [op |-> "readall", keep |-> FALSE], [op |-> "restore"]>>
  ELSE IF PROFILE = "c05" /\ k = 3 THEN <<[op |-> "open"], Hit(0), [op |-> "readall", keep |-> TRUE], Hit(0), [op |-> "readall", keep |-> TRUE], [op |-> "restore"]>>
  ELSE IF PROFILE = "c05" THEN (IF k <= 6 THEN <<Hit(0), Hit(0)>> ELSE <<Hit(0)>>) \o <<[op |-> "readall", keep |-> FALSE], [op |-> "restore"]>>
  ELSE IF k = 1 THEN <<[op |-> "trunc", at |-> RandomElement(0..9999)], [op |-> "report"], [op |-> "restore"]>>
  ELSE (IF k <= 4 THEN <<Hit(0), Hit(0)>> ELSE <<Hit(0)>>) \o <<[op |-> "report"], [op |-> "restore"]>>
Digest(z) == [op |-> "digest", len |-> Pick(<<100, 500, 65535, 65536, 65537, 70000, 131072, 140000>>), begin |-> Pick(<<0, 0, 1, 512, 65536>>),
              size |-> Pick(<<64, 200, 65536, 65537, 131072, 66000>>), xat |-> RandomElement(0..9999), xn |-> Pick(<<72, 72, 64, 0, 1>>),
              near |-> Pick(<<"", "chunk", "chunk", "start", "end">>), seed |-> RandomElement(0..99999)]
Init == hist = <<>> /\ left = 14
First == hist = <<>> /\ \E c \in {Cfg(0)} : hist' = <<c, [op |-> IF PROFILE = "c05" THEN "readall" ELSE "report", keep |-> FALSE]>> /\ UNCHANGED left
More == hist # <<>> /\ left > 0 /\ left' = left - 1
        /\ \E r \in {IF PROFILE = "c06" /\ Chance(1, 6) THEN <<Digest(0)>> ELSE Round(0)} : hist' = hist \o r
GNext == First \/ More
GSpec == Init /\ [][GNext]_<<hist, left>>
Over == left = 0
Emit == Over => CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.OUT)
=============================================================================
