----------------------------- MODULE RobustGen -----------------------------
(***************************************************************************)
(* Generates hostile inputs: a valid archive and rounds of one to five      *)
(* changes to chosen fields, and streams and parser inputs by seed.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, CSV
VARIABLES hist, left
Pick(s) == s[RandomElement(1..Len(s))]
Chance(k, n) == RandomElement(1..n) <= k
Sector(bs) == 512 * 2^bs
Sizes(s) == <<0, 1, 3, 4, 9, 64, 200, s - 1, s, s + 1, 2 * s, 2 * s + 3, 3 * s, 5 * s + 7, RandomElement(1..(6 * s)), RandomElement(1..(6 * s))>>
File(s) == [len |-> Pick(Sizes(s)), kind |-> Pick(<<"zero", "text", "text", "rand", "mix", "runs", "sect", "pcm">>), seed |-> RandomElement(0..99999),
            method |-> Pick(<<0, 2, 2, 2, 8, 16, 18, 32, 64, 128, 66>>), enc |-> Pick(<<0, 0, 0, 1, 2>>)]
Cfg(z) == LET bs == Pick(<<0, 0, 0, 1, 3>>) IN
  [op |-> "cfg", ver |-> Pick(<<1, 2, 3, 3, 4, 4>>), bs |-> bs, tcomp |-> Chance(1, 4), crc |-> Chance(1, 3), seed |-> RandomElement(0..99999),
   list |-> Pick(<<"gen", "gen", "none", "bad">>), attr |-> Pick(<<"none", "none", "good", "short", "rand", "zipped">>), sig |-> Chance(1, 4),
   files |-> [k \in 1..RandomElement(1..4) |-> File(Sector(bs))]]
Hows == <<"zero", "one", "small", "max", "max1", "half", "top", "hi", "big", "pow", "len", "lenm", "lenp", "inc", "dec", "dbl", "flip", "flip", "near", "near", "rand", "rand">>
Places == <<"header", "header", "header", "header", "hash", "hash", "block", "block", "block", "flags", "flags", "het", "het", "het", "bet", "bet", "bet", "hetx", "betx",
            "sector", "sector", "sector", "method", "method", "data", "data", "any", "run", "trunc", "append", "strong", "prefix", "prefix">>
Mut(z) == LET at == Pick(Places) IN
  [at |-> at, idx |-> RandomElement(0..40), field |-> RandomElement(0..97), how |-> IF at = "hash" /\ Chance(1, 3) THEN "fill" ELSE Pick(Hows), seed |-> RandomElement(0..999999)]
Round(z) == [op |-> "round", seed |-> RandomElement(0..999999), muts |-> [k \in 1..Pick(<<1, 1, 1, 2, 2, 3, 5>>) |-> Mut(0)]]
Other(z) == [op |-> Pick(<<"streams", "streams", "parsers">>), seed |-> RandomElement(0..999999)]
Bomb(z) == [op |-> "bombs", seed |-> RandomElement(0..999999)]
Init == hist = <<>> /\ left = 24
First == hist = <<>> /\ \E c \in {Cfg(0)} : hist' = <<c>> /\ UNCHANGED left
More == hist # <<>> /\ left > 0 /\ left' = left - 1
        /\ \E r \in {IF Chance(1, 1200) THEN Bomb(0) ELSE IF Chance(1, 8) THEN Other(0) ELSE Round(0)} : hist' = Append(hist, r)
GNext == First \/ More
GSpec == Init /\ [][GNext]_<<hist, left>>
Over == left = 0
Emit == Over => CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.OUT)
=============================================================================
