------------------------------- MODULE FfiGen -------------------------------
(***************************************************************************)
(* Generates C API sessions (tlc -simulate).  Handles are symbolic: "s<k>"  *)
(* is whatever the k-th call returned.  The abstract state is kept by the   *)
(* operators of StormFfi so that most calls meet live handles, and enough   *)
(* meet closed, foreign, wrong-kind, null or never-issued ones.             *)
(***************************************************************************)
EXTENDS StormFfi, NameDraw, Json, IOUtils, CSV
VARIABLES S, hist, plan
PROFILE == IOEnv.PROFILE
Pool == JsonDeserialize(IOEnv.DATA \o "/names.json")
Chance(k, n) == RandomElement(1..n) <= k
ToS(n) == "s" \o ToString(n)
slot == ToS(Len(hist))

\* --- fixtures ---
Lens == <<0, 1, 2, 7, 20, 100, 511, 512, 513, 700, 1024, 1025, 1500, 2600>>
ADigit(n) == 48 + n
Txt == <<46, 116, 120, 116>>
FileName(k) == CASE k % 4 = 0 -> <<100, 92, 97, ADigit(k)>> \o Txt
                 [] k % 4 = 1 -> IF Chance(1, 4) THEN <<40, 120, ADigit(k)>> ELSE IF Chance(1, 8) THEN <<40, 120, ADigit(k), 41>> ELSE <<82, 101, 97, 100, ADigit(k)>>
                 [] k % 4 = 2 -> <<117, 47, ADigit(k), 46, 100, 97, 116>>
                 [] OTHER -> IF Chance(1, 3) THEN DrawnName(0) \o (IF Chance(1, 4) THEN <<ADigit(k), 92>> ELSE <<ADigit(k)>>) ELSE <<120, ADigit(k)>> \o Txt
RandF(k, c, crc, at) ==
  LET b == crc /\ Chance(1, IF PROFILE = "c19" THEN 4 ELSE 10)
      ln == IF b THEN Pick(<<1, 40, 512, 513, 1100>>) ELSE IF PROFILE = "c11" /\ Chance(1, 40) THEN Pick(<<66000, 140001>>) ELSE Pick(Lens)
  IN  [name |-> FileName(k), len |-> ln, c |-> c * 10 + k, method |-> IF b THEN 0 ELSE Pick(<<0, 2, 2, 8, 16, 32>>),
       enc |-> IF b THEN 0 ELSE Pick(<<0, 0, 1, 2>>), bad |-> b, special |-> FALSE, crc |-> crc,
       attr |-> IF ~at THEN "none" ELSE Pick(<<"good", "good", "good", "badcrc", "badmd5">>)]
Special(n) == [name |-> n, len |-> -1, c |-> -1, special |-> TRUE, bad |-> FALSE, crc |-> FALSE, attr |-> "none"]
RandArchive(p, c) ==
  LET crc == Chance(1, 2)
      at == PROFILE = "c19" /\ Chance(1, 2)
      n == IF PROFILE = "c11" THEN Pick(<<1, 2, 3>>) ELSE Pick(<<0, 1, 2, 4, 6>>)
      ls == IF PROFILE = "c19" THEN Chance(9, 10) ELSE Chance(2, 3)
      sg == PROFILE = "c19" /\ Chance(1, 5)
  IN  [op |-> "fixture", path |-> p, ver |-> RandomElement(1..4), list |-> ls, sig |-> sg, at |-> at, crc |-> crc,
       files |-> [k \in 1..n |-> RandF(k, c, crc, at)]]
AbsArchive(o) == [kind |-> "archive", list |-> o.list, size |-> -1, hs |-> -1, bs |-> -1, sec |-> -1, sig |-> o.sig,
                  files |-> [k \in 1..Len(o.files) |-> [name |-> o.files[k].name, len |-> o.files[k].len, c |-> o.files[k].c, special |-> FALSE,
                                                        bad |-> o.files[k].bad, crc |-> o.files[k].crc, attr |-> o.files[k].attr]]
                            \o (IF o.list THEN <<Special(LISTFILE)>> ELSE <<>>)]
Paths == <<"p0", "p1", "p2", "junk", "absent", "nodir">>
NotThere(k) == [kind |-> k, list |-> FALSE, size |-> 0, hs |-> 0, bs |-> 0, sec |-> 0, sig |-> FALSE, files |-> <<>>]

\* --- handles ---
Live(z) == DOMAIN S.arch \union DOMAIN S.file
Dead(z) == S.issued \ Live(0)
OddHandle(z) == LET k == RandomElement(1..6)
             IN  IF k <= 3 /\ Dead(0) # {} THEN RandomElement(Dead(0))
                 ELSE IF k = 4 THEN NULLH
                 ELSE IF k = 5 THEN Pick(<<"n1", "n2", "n3", "n77777777", "nmax", "n50">>)
                 ELSE IF Live(0) # {} THEN RandomElement(Live(0)) ELSE NULLH
Odd(z) == Chance(1, IF PROFILE = "c10" THEN 4 ELSE 12)
AH(z) == IF DOMAIN S.arch = {} \/ Odd(0) THEN OddHandle(0) ELSE RandomElement(DOMAIN S.arch)
FH(z) == IF DOMAIN S.file = {} \/ Odd(0) THEN OddHandle(0) ELSE RandomElement(DOMAIN S.file)
XH(z) == IF Chance(1, 2) THEN AH(0) ELSE FH(0)
Np(z) == Chance(1, 25)

Flip(n) == [i \in 1..Len(n) |-> IF n[i] = 92 THEN (IF Chance(1, 2) THEN 47 ELSE 92)
                                ELSE IF n[i] = 47 THEN (IF Chance(1, 2) THEN 92 ELSE 47)
                                ELSE IF (n[i] \in 97..122) /\ Chance(1, 2) THEN n[i] - 32 ELSE n[i]]
NameFor(h) ==
  LET fs == IF h \in DOMAIN S.arch THEN SelectSeq(S.arch[h].a.files, LAMBDA f : ~f.special) ELSE <<>>
  IN  IF fs # <<>> /\ Chance(5, 6) THEN (IF Chance(1, 2) THEN Pick(fs).name ELSE Flip(Pick(fs).name))
      ELSE IF Chance(1, 2) THEN FileName(RandomElement(0..9)) ELSE Pick(Pool.plain)
BadUtf == <<120, 255, 254>>

\* --- calls ---
Lengths(f) == <<0, 1, 2, 3, 10, 64, 511, 512, 513, 1000, 3000, f.len, f.len, f.len + 1, f.len - f.pos, RandomElement(0..(f.len + 10))>>
Offsets(f) == <<0, 1, -1, 2, 5, -5, f.len, f.len - 1, f.len + 1, -f.len, -f.len - 1, f.pos, -f.pos, -f.pos - 1, -f.pos + 1,
                RandomElement(0..(f.len + 5)), -RandomElement(0..(f.len + 5)), 65535, 65536, -65536, 2147483647, -2147483647, 1000000>>
AFileRec(h) == IF h \in DOMAIN S.file THEN S.file[h] ELSE [a |-> "", name |-> <<>>, c |-> 0, len |-> 100, pos |-> 10]
OpenAOp(z) == [f |-> "openA", path |-> IF Chance(4, 5) THEN Pick(<<"p0", "p1", "p2">>) ELSE Pick(Paths), np |-> Np(0), utf8 |-> TRUE]
CreateAOp(z) == [f |-> "createA", path |-> Pick(Paths), np |-> Np(0), utf8 |-> TRUE,
                 disp |-> Pick(<<1, 2, 2, 3, 4, 4, 5, 0, 6>>), hs |-> Pick(<<4, 16, 16, 1024, 0, 1, 2, 3, 15, 1000>>)]
OpenFOp(z) == LET h == AH(0) u == Chance(1, 40) IN [f |-> "openF", h |-> h, np |-> Np(0), utf8 |-> ~u, name |-> IF u THEN BadUtf ELSE NameFor(h)]
HasOp(z) == LET h == AH(0) u == Chance(1, 40)
            IN  [f |-> "has", h |-> h, np |-> Np(0), utf8 |-> ~u, name |-> IF u THEN BadUtf ELSE IF Chance(1, 6) THEN LISTFILE ELSE NameFor(h)]
ReadOp(z) == LET h == FH(0) IN [f |-> "read", h |-> h, np |-> Np(0), n |-> Pick(Lengths(AFileRec(h))), hasread |-> Chance(7, 8)]
SizeOp(z) == [f |-> "size", h |-> FH(0), np |-> FALSE, hashi |-> Chance(1, 2)]
SeekOp(z) == LET h == FH(0) g == AFileRec(h) hh == Chance(1, 2) o == Pick(Offsets(g))
             IN  [f |-> "seek", h |-> h, np |-> FALSE, hashi |-> hh, lo |-> o,
                  hi |-> IF Chance(3, 4) THEN (IF o < 0 THEN -1 ELSE 0) ELSE Pick(<<0, -1, 1, -2, 2147483647, -2147483647, 7>>),
                  m |-> Pick(<<0, 0, 1, 1, 1, 2, 2, IF Chance(1, 4) THEN Pick(<<3, 4, -1, 255>>) ELSE 2>>)]
InfoOp(z) == [f |-> "info", h |-> XH(0), np |-> Np(0), cls |-> Pick(<<1, 2, 3, 4, 7, 7, 10, 10, 5, 6, 8, 9, 0, 11, 99>>), n |-> Pick(<<8, 8, 16, 4, 4, 0, 1, 3, 5, 7>>), hasneed |-> Chance(3, 4)]
ANameOp(z) == [f |-> "aname", h |-> AH(0), np |-> Np(0), n |-> Pick(<<0, 1, 4096, 4096, -1, -2, -3>>)]
FNameOp(z) == [f |-> "fname", h |-> FH(0), np |-> Np(0)]
CloseAOp(z) == [f |-> "closeA", h |-> AH(0), np |-> FALSE]
CloseFOp(z) == [f |-> "closeF", h |-> FH(0), np |-> FALSE]
ExtractOp(z) == LET h == AH(0) IN [f |-> "extract", h |-> h, np |-> Np(0), utf8 |-> TRUE, name |-> NameFor(h), there |-> Chance(5, 6)]
VerifyFOp(z) == LET h == AH(0) IN [f |-> "verifyF", h |-> h, np |-> Np(0), utf8 |-> TRUE, name |-> NameFor(h), flags |-> Pick(<<0, 1, 2, 4, 7, 255, 6, 5, 8>>)]
VerifyAOp(z) == [f |-> "verifyA", h |-> AH(0), np |-> FALSE, flags |-> Pick(<<0, 16, 32, 48, 32, 255>>)]
ThreadOp(z) == Pick(<<[f |-> "getErr", np |-> FALSE], [f |-> "setErr", np |-> FALSE, val |-> RandomElement(0..2000)],
                      [f |-> "getLoc", np |-> FALSE], [f |-> "setLoc", np |-> FALSE, new |-> RandomElement(0..70000)]>>)
Nested(z) == Pick(<<CloseAOp(0), OpenFOp(0), HasOp(0), ReadOp(0), CloseFOp(0), ThreadOp(0), VerifyAOp(0), OpenAOp(0), ExtractOp(0), SeekOp(0)>>)
EnumOp(z) == [f |-> "enum", h |-> AH(0), np |-> Np(0), mask |-> Pick(<<<<>>, <<>>, Txt, <<122, 122>>, <<46>>>>), form |-> RandomElement(0..2),
              stop |-> Pick(<<0, 0, 0, 1, 2, 5>>), at |-> Pick(<<0, 0, 1, 1, 2, 3>>), nested |-> <<>>]

Op(z) == LET k == RandomElement(1..100)
         IN  CASE DOMAIN S.arch = {} /\ Chance(4, 5) -> OpenAOp(0)
               [] PROFILE # "c19" /\ DOMAIN S.file = {} /\ Chance(2, 3) -> OpenFOp(0)
               [] PROFILE = "c10" ->
                 (CASE k <= 12 -> OpenAOp(0) [] k <= 16 -> CreateAOp(0) [] k <= 26 -> CloseAOp(0) [] k <= 46 -> OpenFOp(0) [] k <= 54 -> CloseFOp(0)
                    [] k <= 62 -> ReadOp(0) [] k <= 66 -> SizeOp(0) [] k <= 70 -> SeekOp(0) [] k <= 76 -> InfoOp(0) [] k <= 79 -> ANameOp(0)
                    [] k <= 82 -> FNameOp(0) [] k <= 86 -> HasOp(0) [] k <= 89 -> VerifyFOp(0) [] k <= 91 -> VerifyAOp(0) [] k <= 93 -> ExtractOp(0)
                    [] k <= 96 -> EnumOp(0) [] OTHER -> ThreadOp(0))
               [] PROFILE = "c11" ->
                 (CASE k <= 6 -> OpenAOp(0) [] k <= 20 -> OpenFOp(0) [] k <= 24 -> CloseFOp(0) [] k <= 25 -> CloseAOp(0)
                    [] k <= 58 -> ReadOp(0) [] k <= 62 -> SizeOp(0) [] k <= 92 -> SeekOp(0) [] k <= 98 -> InfoOp(0) [] OTHER -> FNameOp(0))
               [] OTHER ->
                 (CASE k <= 8 -> OpenAOp(0) [] k <= 10 -> CreateAOp(0) [] k <= 12 -> CloseAOp(0) [] k <= 18 -> OpenFOp(0) [] k <= 20 -> CloseFOp(0)
                    [] k <= 24 -> ReadOp(0) [] k <= 30 -> InfoOp(0) [] k <= 36 -> ANameOp(0) [] k <= 42 -> HasOp(0)
                    [] k <= 60 -> VerifyFOp(0) [] k <= 70 -> VerifyAOp(0) [] k <= 84 -> ExtractOp(0) [] OTHER -> EnumOp(0))
\* the state after a call, as the specification sees it
Open1(o) == IF ParamErrs(o) # {} \/ ~Installed(S, o.path) THEN S
            ELSE [S EXCEPT !.arch = Put(S.arch, slot, [path |-> o.path, a |-> S.disk[o.path]]), !.issued = @ \union {slot}]
Create1(o) == IF ParamErrs(o) # {} \/ o.hs \notin Pow2 \/ o.disp \notin {1, 2, 4, 5} \/ (o.disp = 1 /\ Exists(S, o.path)) \/ (o.disp = 5 /\ ~Exists(S, o.path)) THEN S
              ELSE IF o.disp = 4 /\ Exists(S, o.path) THEN Open1(o)
              ELSE IF ~DirThere(S, o.path) THEN S
              ELSE [S EXCEPT !.disk = Put(S.disk, o.path, EmptyArchive), !.arch = Put(S.arch, slot, [path |-> o.path, a |-> EmptyArchive]), !.issued = @ \union {slot}]
OpenF1(o) == IF ArchErrs(S, o) # {} \/ ~Has(S.arch[o.h].a, o.name) THEN S
             ELSE LET f == Get(S.arch[o.h].a, o.name)
                  IN  IF f.bad THEN S
                      ELSE [S EXCEPT !.file = Put(S.file, slot, [a |-> o.h, name |-> o.name, c |-> f.c, len |-> f.len, pos |-> 0]), !.issued = @ \union {slot}]
Effect(o) == CASE o.f = "openA" -> Open1(o) [] o.f = "createA" -> Create1(o)
               [] o.f = "openF" -> OpenF1(o)
               [] o.f = "closeA" /\ ArchOpen(S, o.h) -> [S EXCEPT !.arch = Drop(@, {o.h}), !.file = Drop(@, FilesOf(S, o.h))]
               [] o.f = "closeF" /\ FileOpen(S, o.h) -> [S EXCEPT !.file = Drop(@, {o.h})]
               [] o.f = "read" /\ ~o.np /\ FileOpen(S, o.h) -> [S EXCEPT !.file[o.h].pos = Min2(@ + o.n, S.file[o.h].len)]
               [] o.f = "seek" /\ FileOpen(S, o.h) /\ Target(S.file[o.h], o) >= 0 -> [S EXCEPT !.file[o.h].pos = Target(S.file[o.h], o)]
               [] OTHER -> S

GInit == S = S0 /\ hist = <<>> /\ plan = [n |-> -1]
GFix == /\ plan.n = -1 /\ Len(hist) < 3
        /\ \E o \in {RandArchive("p" \o ToString(Len(hist)), Len(hist))} :
             /\ S' = [S EXCEPT !.disk = Put(S.disk, o.path, AbsArchive(o))]
             /\ hist' = Append(hist, o)
        /\ UNCHANGED plan
GStart == /\ plan.n = -1 /\ Len(hist) = 3
          /\ S' = [S EXCEPT !.disk = Put(Put(Put(S.disk, "junk", NotThere("junk")), "absent", NotThere("absent")), "nodir", NotThere("nodir"))]
          /\ plan' = [n |-> IF PROFILE = "c19" THEN 25 ELSE 45] /\ UNCHANGED hist
GCall == /\ plan.n > 0
         /\ \E o \in {Op(0)} : \E q \in {IF o.f = "enum" /\ Chance(2, 3) THEN <<Nested(0)>> ELSE <<>>} :
              /\ hist' = Append(hist, IF o.f = "enum" THEN [op |-> "call"] @@ [o EXCEPT !.nested = q] ELSE [op |-> "call"] @@ o)
              /\ S' = IF o.f = "enum" THEN (IF q # <<>> /\ q[1].f \in {"closeA", "closeF"} THEN Effect(q[1]) ELSE S) ELSE Effect(o)
         /\ plan' = [plan EXCEPT !.n = @ - 1]
GEnd == plan.n = 0 /\ plan' = [n |-> -2] /\ UNCHANGED <<S, hist>>
GNext == GFix \/ GStart \/ GCall \/ GEnd
GSpec == GInit /\ [][GNext]_<<S, hist, plan>>
Emit == plan.n = -2 => CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.OUT)
=============================================================================
