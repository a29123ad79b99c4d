----------------------------- MODULE ArchiveGen -----------------------------
(***************************************************************************)
(* Generates behaviours of Archive (run with tlc -simulate): every step is  *)
(* an action of Archive, its arguments drawn at random, recorded in hist as *)
(* the operation the harness has to perform.  PROFILE shifts the emphasis.  *)
(* (Operators that draw take a dummy argument: TLC caches constants.)        *)
(***************************************************************************)
EXTENDS Archive, NameDraw, Json, IOUtils, CSV

VARIABLES hist, plan
PROFILE == IOEnv.PROFILE
Pool == JsonDeserialize(IOEnv.DATA \o "/names.json")
Chance(k, n) == RandomElement(1..n) <= k

\* --- options ---
BlockSizes == IF PROFILE = "c01" THEN <<0, 0, 0, 1, 2, 3, 3, 4, 5, 7, 9, 21>>
              ELSE IF PROFILE = "c03" THEN <<0, 0, 0, 1, 3, 3, 4, 4, Pick(<<11, 15, 16, 20, 21>>)>>
              ELSE <<0, 0, 1, 3, 3, 4>>
Methods == <<0, 2, 2, 8, 16, 18, 32>>
Unsupported == <<1, 4, 3, 10, 34, 24, 33, 255, 5, 192>>
RandCfg(z) == [ver |-> RandomElement(1..4), bs |-> Pick(BlockSizes), def |-> Pick(Methods),
            crc |-> Chance(1, 2), tcomp |-> Chance(1, 3), tmethod |-> Pick(<<2, 2, 16, 18, 8, 32>>),
            list |-> IF Chance(7, 10) THEN "gen" ELSE Pick(<<"none", "none", "ext", IF Chance(1, 6) THEN "gone" ELSE "none">>)]
Sector(bs) == 512 * 2^bs

\* --- files ---
Sizes(s) == <<0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 31, 64, 127, 128, 129, 255, 256, 257>>
            \o <<s - 4, s - 1, s, s, s + 1, s + 2, s + 3, s + 4, s + 5>>
            \o <<2 * s - 1, 2 * s, 2 * s + 1, 2 * s + 6, 3 * s - 2, 3 * s, 3 * s + 7, 4 * s + 1, 5 * s>>
            \o <<RandomElement(0..(2 * s)), RandomElement(0..(4 * s)), 9 * s + RandomElement(0..9)>>
            \o (IF s <= 4096 THEN <<17 * s + 3, 33 * s>> ELSE <<>>)
SmallSizes == <<0, 1, 3, 4, 5, 9, 20, 100, 511, 512, 513, 700, 1024, 1025, 1600>>
Kinds == <<"zero", "const", "text", "text", "rand", "rand", "mix", "runs", "tail", "head", "few", "edge", "ramp", "sect">>

Flip(n) == [i \in 1..Len(n) |-> IF n[i] = 92 THEN (IF Chance(1, 2) THEN 47 ELSE 92)
                                ELSE IF n[i] = 47 THEN (IF Chance(1, 2) THEN 92 ELSE 47)
                                ELSE IF (n[i] \in 97..122) /\ Chance(1, 2) THEN n[i] - 32
                                ELSE IF (n[i] \in 65..90) /\ Chance(1, 2) THEN n[i] + 32 ELSE n[i]]
Numbered(k) == <<102, 105, 108, 101>> \o <<48 + ((k \div 100) % 10), 48 + ((k \div 10) % 10), 48 + (k % 10)>>
PlainName(z) == IF Chance(1, 3) THEN Numbered(RandomElement(0..999)) ELSE IF Chance(1, 3) THEN DrawnName(0) ELSE Pick(Pool.plain)
ChainName(z) == LET c == plan.slot IN IF c = 0 THEN Pick(Pool.chain0) ELSE IF c = 7 THEN Pick(Pool.chain7) ELSE Pick(Pool.chain15)
PairName(z) == LET p == plan.pair IN p[RandomElement(1..2)]
AnyName(z) == CASE PROFILE = "c02" -> (IF plan.mode = "chain" THEN ChainName(0)
                                    ELSE IF plan.mode = "pair" THEN (IF Chance(2, 3) THEN PairName(0) ELSE ChainName(0))
                                    ELSE IF Chance(1, 8) THEN Pick(Pool.odd) ELSE PlainName(0))
             [] PROFILE = "c03" -> (IF Chance(1, 12) THEN Pick(Pool.special) ELSE IF plan.mode = "odd" /\ Chance(1, 3) THEN Pick(Pool.odd) ELSE PlainName(0))
             [] OTHER -> (IF Chance(1, 15) THEN Pick(Pool.special) ELSE IF Chance(1, 10) THEN Pick(Pool.odd) ELSE PlainName(0))
\* usually a new name; sometimes a repetition (a conflict unless the language differs)
Fresh(n) == Matches(n) = {}
RECURSIVE TryFresh(_, _)
TryFresh(n, k) == IF k = 0 \/ Fresh(n) THEN n ELSE TryFresh(AnyName(0), k - 1)
Locales == <<0, 0, 0, 0, 0, 0, 1033, 1031, 65535>>

RandFile(c) ==
  LET s == IF c.bs > 9 THEN 2048 ELSE Sector(c.bs)    \* files much smaller than the largest sectors
      api == Pick(<<"plain", "opt", "opt", "enc", "enc">>)
      m == IF api = "plain" THEN c.def ELSE IF PROFILE = "c01" /\ plan.unsup /\ Chance(1, 4) THEN Pick(Unsupported) ELSE Pick(Methods)
      e == IF api = "plain" THEN 0 ELSE IF api = "opt" THEN RandomElement(0..1) ELSE RandomElement(1..2)
      dup == plan.dup /\ Len(pending) > 0 /\ Chance(1, 3)
      attrs == PROFILE = "c18" /\ plan.attrs /\ Len(pending) = 0
  IN  [op |-> "add", api |-> api, method |-> m, enc |-> e,
       name |-> IF attrs THEN ATTRIBUTES ELSE IF dup THEN Flip(pending[RandomElement(1..Len(pending))].name) ELSE TryFresh(AnyName(0), 6),
       loc |-> IF api = "plain" THEN 0 ELSE IF dup THEN Pick(<<0, 1033, 1031>>) ELSE Pick(Locales),
       len |-> IF PROFILE = "c01" THEN Pick(Sizes(s)) ELSE IF Chance(1, 8) THEN Pick(Sizes(s)) ELSE Pick(SmallSizes),
       kind |-> IF attrs THEN "attrs" ELSE Pick(Kinds), seed |-> RandomElement(0..99999),
       src |-> IF api # "x" /\ Chance(1, 4) THEN (IF PROFILE # "c02" /\ plan.gone /\ Chance(1, 2) THEN "gone" ELSE "disk") ELSE "mem"]

\* --- probes ---
Tweak(n) == LET k == RandomElement(0..6)
            IN  IF Len(n) = 0 THEN <<120>>
                ELSE CASE k = 0 -> Append(n, 32)
                       [] k = 1 -> SubSeq(n, 1, Len(n) - 1)
                       [] k = 2 -> <<n[1]>> \o n
                       [] k = 3 -> [n EXCEPT ![Len(n)] = IF n[Len(n)] \in 48..121 THEN n[Len(n)] + 1 ELSE 97]
                       [] k = 4 -> n \o <<92>>
                       [] k = 5 -> SubSeq(n, 2, Len(n))
                       [] OTHER -> <<46, 92>> \o n
AsciiOnly(n) == \A i \in 1..Len(n) : n[i] < 128
Probe(z) == IF Len(pending) > 0 /\ Chance(6, 10)
         THEN LET n == pending[RandomElement(1..Len(pending))].name
              IN  IF Chance(1, 2) THEN n ELSE IF AsciiOnly(n) /\ Chance(1, 3) THEN Tweak(n) ELSE IF AsciiOnly(n) THEN Flip(n) ELSE n
         ELSE IF Chance(1, 5) THEN Pick(Pool.special) ELSE AnyName(0)
AFile(r) == [name |-> r.name, norm |-> <<>>, loc |-> r.loc, len |-> r.len, dig |-> "", method |-> r.method, enc |-> r.enc, src |-> r.src]

Push(o) == hist' = Append(hist, o)
NFiles(z) == CASE PROFILE = "c01" -> Pick(<<1, 1, 1, 2, 2, 3, 4, 6>>)
            [] PROFILE = "c02" -> Pick(<<0, 1, 2, 4, 7, 8, 8, 9, 14, 15, 16, 20, 31, 40>>)
            [] PROFILE = "c03" -> Pick(<<0, 1, 2, 3, 5, 8, 12, 20>>)
            [] OTHER -> Pick(<<1, 2, 3, 5, 8>>)
NQueries == CASE PROFILE = "c01" -> 0
              [] PROFILE = "c02" -> 24
              [] PROFILE = "c03" -> 7
              [] OTHER -> 40
GInit == Init /\ hist = <<>> /\ plan = [n |-> 0]
GBegin == /\ phase = "idle"
          /\ \E c \in {RandCfg(0)} :
             /\ Begin([ver |-> c.ver, sector |-> Sector(c.bs), crc |-> c.crc, list |-> c.list, def |-> c.def, bs |-> c.bs])
             /\ hist' = <<[op |-> "cfg"] @@ c>>
          /\ plan' = [n |-> NFiles(0), q |-> NQueries, dup |-> Chance(1, IF PROFILE = "c01" THEN 30 ELSE 8), unsup |-> Chance(1, 6), gone |-> Chance(1, 12), attrs |-> Chance(1, 3),
                      slot |-> Pick(<<0, 7, 15, 15>>), pair |-> IF Chance(1, 2) THEN Pick(Pool.pairsA) ELSE IF Chance(1, 2) THEN Pick(Pool.pairsB) ELSE Pick(Pool.sameoff),
                      mode |-> Pick(<<"chain", "pair", "plain", "plain", "odd">>)]
GAdd == /\ phase = "building" /\ Len(pending) < plan.n
        /\ \E r \in {RandFile(cfg)} : Add(AFile(r)) /\ Push(r)
        /\ UNCHANGED plan
GBuild == /\ phase = "building" /\ Len(pending) >= plan.n
          /\ Build(MayBuild(pending, cfg)) /\ Push([op |-> "build"])
          /\ UNCHANGED plan
GOpen == /\ phase = "built" /\ plan.q >= 0
         /\ Cardinality(DOMAIN handles) < (IF PROFILE = "c18" THEN 3 ELSE 1)
         /\ (Cardinality(DOMAIN handles) > 0 => Chance(1, 8))
         /\ \E h \in {Cardinality(DOMAIN handles) + Len(hist)}, d \in {(PROFILE # "c02" /\ Chance(1, IF PROFILE = "c18" THEN 2 ELSE 5))} :
               Open(h, d) /\ Push([op |-> "open", h |-> h, deferred |-> d])
         /\ UNCHANGED plan
Query(z) == LET h == RandomElement(DOMAIN handles)
             k == RandomElement(1..22)
         IN  CASE PROFILE = "c02" -> IF k <= 13 THEN [op |-> "find", h |-> h, name |-> Probe(0)] ELSE [op |-> "read", h |-> h, name |-> Probe(0)]
               [] PROFILE = "c03" -> (CASE k <= 4 -> [op |-> "list", h |-> h, kind |-> "list"]
                                        [] k <= 8 -> [op |-> "list", h |-> h, kind |-> "all"]
                                        [] k <= 11 -> [op |-> "list", h |-> h, kind |-> "listh"]
                                        [] k <= 14 -> [op |-> "list", h |-> h, kind |-> "allh"]
                                        [] k <= 19 -> [op |-> "info", h |-> h]
                                        [] OTHER -> [op |-> "readlisted", h |-> h])
               [] OTHER -> (CASE k <= 4 -> [op |-> "find", h |-> h, name |-> Probe(0)]
                              [] k <= 12 -> [op |-> "read", h |-> h, name |-> Probe(0)]
                              [] k = 13 -> [op |-> "list", h |-> h, kind |-> Pick(<<"list", "all", "listh", "allh">>)]
                              [] k = 14 -> [op |-> "list", h |-> h, kind |-> "list"]
                              [] k <= 16 -> [op |-> "info", h |-> h]
                              [] k = 17 -> [op |-> "verify", h |-> h]
                              [] k = 18 -> [op |-> "load", h |-> h]
                              [] k = 19 -> [op |-> "file"]
                              [] k = 20 -> [op |-> "attrs", h |-> h]
                              [] k = 21 -> [op |-> "peek", h |-> h]
                              [] OTHER -> [op |-> "close", h |-> h])
GQuery == /\ phase = "built" /\ DOMAIN handles # {} /\ plan.q > 0
          /\ \E o \in {Query(0)} : /\ Push(o)
                                /\ IF o.op = "close" THEN Close(o.h) ELSE UNCHANGED vars
          /\ plan' = [plan EXCEPT !.q = @ - 1]
Done == phase = "failed" \/ (phase = "built" /\ DOMAIN handles # {} /\ plan.q = 0)
GEnd == /\ Done /\ plan' = [plan EXCEPT !.q = -1] /\ Push([op |-> "end"]) /\ UNCHANGED vars
\* at the end every stored file is read back
Over == "q" \in DOMAIN plan /\ plan.q = -1
GNext == ~Over /\ (GBegin \/ GAdd \/ GBuild \/ GOpen \/ GQuery \/ GEnd)
GSpec == GInit /\ [][GNext]_<<vars, hist, plan>>
Emit == Over => CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.OUT)
=============================================================================
