------------------------------- MODULE CliGen -------------------------------
(***************************************************************************)
(* Generates command line sessions.  c13: archives with arbitrary entry     *)
(* names, extracted.  c14: file trees, archives made from them by the tool, *)
(* listings, searches, extractions, verification before and after damage.   *)
(***************************************************************************)
EXTENDS NameDraw, Json, IOUtils, CSV
VARIABLES hist, left
PROFILE == IOEnv.PROFILE
D == JsonDeserialize(IOEnv.DATA \o "/cli.json")
Chance(k, n) == RandomElement(1..n) <= k
Sizes(s) == <<0, 1, 2, 5, 64, 300, s - 1, s, s + 1, 2 * s, 2 * s + 3, 5 * s + 7, RandomElement(1..(6 * s))>>
Body(z) == [kind |-> Pick(<<"zero", "text", "text", "rand", "mix", "sect", "ramp", "crlf">>), len |-> Pick(Sizes(512)), seed |-> RandomElement(0..99999)]
Leaf(z) == LET n == DrawnName(0) IN <<RandomElement(97..122)>> \o [i \in 1..Len(n) |-> IF n[i] \in {47, 92} THEN 46 ELSE n[i]]
\* names in which upper and lower case are not ASCII
Accent(z) == D.files[RandomElement(27..29)]
TreeFile(z) == [path |-> [k \in 1..Pick(<<0, 0, 0, 1, 1, 2, 3>>) |-> Pick(D.dirs)] \o <<IF Chance(1, 10) THEN Accent(0) ELSE IF Chance(2, 3) THEN D.files[RandomElement(1..10)] ELSE IF Chance(1, 3) THEN Leaf(0) ELSE Pick(D.files)>>, body |-> Body(0)]
\* a tree: files below src, and files around the place where the tool works
Start(z) == [op |-> "tree", files |-> [k \in 1..Pick(<<1, 2, 3, 5, 8, 12>>) |-> TreeFile(0)],
             around |-> [k \in 1..4 |-> Body(0)], seed |-> RandomElement(0..99999)]

Tok(z) == [t |-> Pick(<<"lit", "lit", "lit", "lit", "any", "not">>), cs |-> [k \in 1..Pick(<<1, 1, 2>>) |-> Pick(D.globs)[1]], rep |-> "1"]
RepTok(z) == [Tok(z) EXCEPT !.rep = Pick(<<"1", "1", "*", "+", "?">>)]
Star(z) == [t |-> "any", cs |-> <<>>, rep |-> "*"]
\* a glob: literals, ?, [..], [!..] and * between them
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
Lits(s) == [i \in 1..Len(s) |-> [t |-> "lit", cs |-> <<s[i]>>, rep |-> "1"]]
GlobToks(z) == LET n == Pick(<<1, 1, 2, 3>>)
                   mid == Flat([k \in 1..n |-> IF Chance(1, 4) THEN <<Tok(0), Star(0)>> ELSE <<Tok(0)>>])
               IN CASE Chance(1, 3) -> <<Star(0)>> \o Lits(Pick(<<<<46, 116, 120, 116>>, <<46, 116, 109, 112>>, <<46, 98, 105, 110>>, <<97>>, <<116>>>>))
                    [] Chance(1, 4) -> Lits(Pick(D.files))
                    [] Chance(1, 8) -> <<Star(0)>>
                    [] OTHER -> (IF Chance(1, 2) THEN <<Star(0)>> ELSE <<>>) \o mid
Glob(fold) == [toks |-> GlobToks(0), from |-> TRUE, to |-> TRUE, fold |-> fold]
Rex(fold) == [toks |-> IF Chance(1, 4) THEN Lits(Pick(D.files)) ELSE [k \in 1..Pick(<<1, 2, 2, 3>>) |-> RepTok(0)], from |-> Chance(1, 3), to |-> Chance(1, 3), fold |-> fold]
Pat(fold) == LET rex == Chance(1, 3) IN [on |-> TRUE, regex |-> rex, pat |-> IF rex THEN Rex(fold) ELSE Glob(fold)]
NoPat == [on |-> FALSE, regex |-> FALSE, pat |-> [toks |-> <<>>, from |-> FALSE, to |-> FALSE, fold |-> FALSE]]
PathGlob(z) == Pick(<<Lits(Pick(D.dirs) \o <<47>>) \o <<Star(0)>>, <<Star(0)>> \o Lits(<<47>> \o Pick(D.files)), Lits(Pick(D.dirs) \o <<47>>) \o <<Tok(0), Star(0)>>,
                      Lits(Pick(D.dirs) \o <<47>> \o Pick(D.files)), <<Star(0)>> \o Lits(Pick(D.dirs)) \o <<Star(0)>>>>)
Ignore(z) == IF Chance(1, 3) THEN [glob |-> TRUE, text |-> <<>>, pat |-> [Glob(FALSE) EXCEPT !.toks = PathGlob(0)]]
             ELSE IF Chance(1, 2) THEN [glob |-> FALSE, text |-> Pick(D.ignores), pat |-> NoPat.pat]
             ELSE [glob |-> TRUE, text |-> <<>>, pat |-> [Glob(FALSE) EXCEPT !.toks = <<Star(0)>> \o Lits(Pick(<<<<46, 116, 109, 112>>, <<46, 116, 120, 116>>, <<97>>>>))]]

Create(z) == [op |-> "create", src |-> Pick(<<"dir", "dir", "dir", "dir", "dir", "file", "sub", "gone">>), rel |-> Chance(1, 2),
              ver |-> RandomElement(1..4), method |-> Pick(<<"none", "zlib", "zlib", "bzip2", "lzma", "sparse", "pkware">>), bs |-> Pick(<<0, 0, 1, 3, 5>>),
              deep |-> ~Chance(1, 5), list |-> IF Chance(1, 8) THEN "none" ELSE "gen", cfg |-> Chance(1, 5), stored |-> Chance(1, 5),
              ignore |-> IF Chance(1, 3) THEN [k \in 1..RandomElement(1..2) |-> Ignore(0)] ELSE <<>>]
\* entry names of any kind; "abs" ones get the scratch directory in front
Hostile(z) == LET up == Pick(<<0, 0, 0, 1, 1, 2, 3, 4>>)
                  cs == IF Chance(1, 4) THEN [k \in 1..RandomElement(1..4) |-> Pick(D.dirs)] \o [k \in 1..RandomElement(1..6) |-> <<46, 46>>] \o <<Pick(D.parts)>> ELSE [k \in 1..up |-> <<46, 46>>] \o [k \in 1..Pick(<<1, 1, 2, 3>>) |-> IF Chance(1, 30) THEN Pick(<<D.long, D.nul>>) ELSE Pick(D.parts)]
              IN [parts |-> cs, sep |-> Pick(<<"/", "/", "/", "/", "\\">>), lead |-> Pick(<<"", "", "", "", "", "", "/", "abs", "abs", "//", "./", "\\">>),
                  trail |-> Chance(1, 15), body |-> Body(0)]
Plain(z) == [parts |-> [k \in 1..Pick(<<1, 1, 2>>) |-> IF Chance(1, 10) THEN Accent(0) ELSE IF Chance(1, 6) THEN Leaf(0) ELSE Pick(D.files)], sep |-> "/", lead |-> "", trail |-> FALSE, body |-> Body(0)]
Put(z) == [op |-> "put", ver |-> RandomElement(1..4), bs |-> Pick(<<0, 1, 3>>), crc |-> Chance(1, 2), list |-> "gen", tcomp |-> Chance(1, 4), enc |-> Pick(<<0, 0, 1, 2>>),
           method |-> Pick(<<0, 2, 2, 16>>), files |-> [k \in 1..Pick(<<1, 2, 4, 6>>) |-> IF PROFILE = "c13" /\ Chance(2, 3) THEN Hostile(0) ELSE Plain(0)]]

List(z) == [op |-> "list", form |-> Pick(<<"json", "json", "text", "long">>), all |-> Chance(1, 6), hashes |-> Chance(1, 8), alias |-> Chance(1, 4), pat |-> IF Chance(1, 2) THEN Pat(FALSE) ELSE NoPat]
AccentPat(z) == [on |-> TRUE, regex |-> FALSE, pat |-> [toks |-> <<Star(0)>> \o Lits(<<Pick(<<233, 201, 252, 220>>)>>) \o <<Star(0)>>, from |-> TRUE, to |-> TRUE, fold |-> TRUE]]
Find(z) == [op |-> "find", pat |-> IF Chance(1, 6) THEN AccentPat(0) ELSE Pat(Chance(1, 2))]
Info(z) == [op |-> "info", pick |-> RandomElement(0..20), how |-> Pick(<<"same", "same", "case", "slash", "other">>)]
Verify(z) == [op |-> "verify", contents |-> Chance(2, 3), crc |-> Chance(1, 3), form |-> Pick(<<"text", "json", "csv">>), loud |-> Chance(1, 3)]
Extract(z) == [op |-> "extract", keep |-> Chance(2, 3), to |-> Pick(<<"out", "out", "new", "here", "abs">>), quiet |-> Chance(1, 3)]
Extract1(z) == [op |-> "extract1", pick |-> RandomElement(0..20), how |-> Pick(<<"same", "same", "same", "case", "slash", "other">>), keep |-> Chance(1, 3),
                to |-> Pick(<<"file", "dir", "slash", "here">>), seed |-> RandomElement(0..9)]
Damage(z) == [op |-> "damage", area |-> Pick(<<"header", "hash", "block", "het", "bet", "data", "data", "data", "any", "trunc", "junk", "list", "gone">>),
              at |-> RandomElement(0..9999), n |-> Pick(<<1, 1, 2, 8, 40>>), seed |-> RandomElement(0..99999)]
Setting(z) == LET key == Pick(<<"default_compression", "default_version", "default_block_size", "default_version", "default_block_size", "default_output", "default_size">>) IN
  [op |-> "config", act |-> Pick(<<"set", "set", "set", "set", "set", "reset", "show">>), key |-> key,
   val |-> IF Chance(1, 6) THEN Pick(<<"", "0", "5", "24", "65536", "99999999999", "x", "ZLIB", "huffman", "Text", "1.0", "none ">>)
           ELSE CASE key = "default_compression" -> Pick(<<"none", "zlib", "bzip2", "lzma", "sparse", "pkware">>)
                  [] key = "default_version" -> ToString(RandomElement(1..4))
                  [] key = "default_block_size" -> ToString(Pick(<<0, 0, 1, 2, 5, 7, 10>>))
                  [] OTHER -> Pick(<<"text", "json", "csv">>)]
Op(z) == LET k == RandomElement(1..30) IN
  IF PROFILE = "c13" THEN (IF k <= 22 THEN Extract(0) ELSE IF k <= 25 THEN Extract1(0) ELSE IF k <= 28 THEN Put(0) ELSE List(0))
  ELSE CASE k <= 5 -> List(0) [] k \in 6..9 -> Find(0) [] k \in 10..12 -> Info(0) [] k \in 13..17 -> Verify(0) [] k \in 18..21 -> Extract(0)
         [] k \in 22..24 -> Extract1(0) [] k = 25 -> [op |-> "ainfo"] [] k = 26 -> Create(0) [] k = 27 -> Put(0) [] OTHER -> Damage(0)
Init == hist = <<>> /\ left = 12
First == hist = <<>> /\ \E s \in {Start(0)} : \E c \in {IF PROFILE = "c13" \/ Chance(1, 6) THEN Put(0) ELSE Create(0)} :
            hist' = (IF Chance(1, 20) THEN <<s>>
                     ELSE IF c.op = "create" /\ Chance(1, 4) THEN <<s>> \o [k \in 1..Pick(<<1, 2, 3>>) |-> Setting(0)] \o <<[c EXCEPT !.stored = TRUE], [op |-> "ainfo"]>>
                     ELSE <<s, c>>) /\ UNCHANGED left
More == hist # <<>> /\ left > 0 /\ left' = left - 1 /\ \E o \in {Op(0)} :
            hist' = hist \o (IF o.op = "damage" THEN <<o, Verify(0), [Verify(0) EXCEPT !.contents = TRUE], Extract(0), [op |-> "list", form |-> "json", all |-> FALSE, hashes |-> FALSE, alias |-> FALSE, pat |-> NoPat], [op |-> "restore"]>> ELSE <<o>>)
GNext == First \/ More
GSpec == Init /\ [][GNext]_<<hist, left>>
Over == left = 0
Emit == Over => CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.OUT)
=============================================================================
