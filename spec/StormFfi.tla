------------------------------ MODULE StormFfi ------------------------------
(***************************************************************************)
(* The C API: archive and file handles, reads and seeks, last error and     *)
(* language per thread, enumeration, extraction and verification.           *)
(*                                                                         *)
(* The state is one record S.  A call is a record e: the function (e.f),    *)
(* its arguments, and what it returned (e.ok, e.err = the caller's last     *)
(* error afterwards, and outputs).  After(S, t, e) is the set of states the *)
(* system may be in after thread t made the call e in state S; it is empty  *)
(* when the call may not have returned that.                                *)
(***************************************************************************)
EXTENDS Names, FiniteSets

\* S.disk : path -> [kind, files, list, size, hs, bs, sec, sig]   what lies on disk
\* S.arch : handle -> [path, a]            open archives (a is the archive as it was opened)
\* S.file : handle -> [a, name, c, len, pos]
\* S.issued : handles ever returned;  S.err, S.loc : thread -> value
\* A file in an archive: [name, len, c, special, bad, crc, attr]; c names its content, bad says its
\* stored bytes are damaged, crc that it has checksums, attr is "none", "good", "badcrc" or "badmd5"

NULLH == "0"
\* content c: the byte at position i (from 0)
Byte(c, i) == (i * 167 + (i \div 253) * 29 + c * 77) % 256
Content(f) == [i \in 1..f.len |-> Byte(f.c, i - 1)]

Threads == 0..4
S0 == [disk |-> <<>>, arch |-> <<>>, file |-> <<>>, issued |-> {}, err |-> [t \in Threads |-> 0], loc |-> [t \in Threads |-> 0]]

Put(f, k, v) == [x \in DOMAIN f \union {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, ks) == [x \in DOMAIN f \ ks |-> f[x]]
Bit(n, k) == (n \div k) % 2 = 1
Min2(a, b) == IF a < b THEN a ELSE b

ArchOpen(S, h) == h \in DOMAIN S.arch
FileOpen(S, h) == h \in DOMAIN S.file
Idx(a, name) == {i \in 1..Len(a.files) : SameName(a.files[i].name, name)}
Has(a, name) == Idx(a, name) # {}
Get(a, name) == a.files[CHOOSE i \in Idx(a, name) : TRUE]
\* names the API can take (others are refused as parameters)
Utf8(e) == "utf8" \in DOMAIN e => e.utf8

\* --- outcomes ---
E(S, t, e) == [S EXCEPT !.err[t] = e.err]
Fail(S, t, e, errs) == IF ~e.ok /\ e.err \in errs THEN {E(S, t, e)} ELSE {}
Succ(S, t, e, S2) == IF e.ok /\ e.err = 0 THEN {E(S2, t, e)} ELSE {}
NoOut(e) == e.out \in {"none", NULLH}
Keep(S, c) == IF c THEN S ELSE {}
ParamErrs(e) == IF e.np \/ ~Utf8(e) THEN {87} ELSE {}
ArchErrs(S, e) == ParamErrs(e) \union (IF ArchOpen(S, e.h) THEN {} ELSE {6})
FileErrs(S, e) == (IF e.np THEN {87} ELSE {}) \union (IF FileOpen(S, e.h) THEN {} ELSE {6})

\* --- archives ---
Installed(S, path) == path \in DOMAIN S.disk /\ S.disk[path].kind = "archive"
Exists(S, path) == path \in DOMAIN S.disk /\ S.disk[path].kind \in {"archive", "junk"}
DirThere(S, path) == path \notin DOMAIN S.disk \/ S.disk[path].kind # "nodir"
NewArch(S, e) == Put(S.arch, e.out, [path |-> e.path, a |-> S.disk[e.path]])
Fresh(S, h) == h # NULLH /\ h # "none" /\ h \notin S.issued
OpenInstalled(S, t, e) == IF Installed(S, e.path)
  THEN Keep(Succ(S, t, e, [S EXCEPT !.arch = NewArch(S, e), !.issued = @ \union {e.out}]), Fresh(S, e.out))
  ELSE Keep(Fail(S, t, e, {2, 5, 1392}), NoOut(e))
OpenA(S, t, e) == IF ParamErrs(e) # {} THEN Keep(Fail(S, t, e, {87}), NoOut(e)) ELSE OpenInstalled(S, t, e)

Pow2 == {2^k : k \in 2..30}
EmptyArchive == [kind |-> "archive", list |-> TRUE, size |-> -1, hs |-> -1, bs |-> 1, sec |-> -1, sig |-> FALSE,
                 files |-> <<[name |-> LISTFILE, len |-> -1, c |-> -1, special |-> TRUE, bad |-> FALSE, crc |-> FALSE, attr |-> "none"]>>]
CreateA(S, t, e) ==
  LET bad == (IF ParamErrs(e) # {} \/ e.hs \notin Pow2 \/ e.disp \notin {1, 2, 4, 5} THEN {87} ELSE {})
             \union (IF ~e.np /\ e.disp = 1 /\ Exists(S, e.path) THEN {183} ELSE {})
             \union (IF ~e.np /\ e.disp = 5 /\ ~Exists(S, e.path) THEN {2} ELSE {})
  IN  IF bad # {} THEN Keep(Fail(S, t, e, bad), NoOut(e))
      ELSE IF e.disp = 4 /\ Exists(S, e.path) THEN OpenInstalled(S, t, e)
      ELSE IF ~DirThere(S, e.path) THEN Keep(Fail(S, t, e, {2, 5, 87}), NoOut(e))
      ELSE LET S2 == [S EXCEPT !.disk = Put(S.disk, e.path, EmptyArchive)] IN OpenInstalled(S2, t, e)

FilesOf(S, h) == {x \in DOMAIN S.file : S.file[x].a = h}
CloseA(S, t, e) == IF ArchOpen(S, e.h)
  THEN Succ(S, t, e, [S EXCEPT !.arch = Drop(@, {e.h}), !.file = Drop(@, FilesOf(S, e.h))])
  ELSE Fail(S, t, e, {6})

\* --- files ---
OpenF(S, t, e) ==
  IF ArchErrs(S, e) # {} THEN Keep(Fail(S, t, e, ArchErrs(S, e)), NoOut(e))
  ELSE LET a == S.arch[e.h].a
       IN  IF ~Has(a, e.name) THEN Keep(Fail(S, t, e, {2}), NoOut(e))
           ELSE LET f == Get(a, e.name)
                IN  IF f.bad THEN Keep(Fail(S, t, e, {1392}), NoOut(e))
                    ELSE Keep(Succ(S, t, e, [S EXCEPT !.file = Put(S.file, e.out, [a |-> e.h, name |-> e.name, c |-> f.c, len |-> f.len, pos |-> 0]),
                                                      !.issued = @ \union {e.out}]), Fresh(S, e.out))
CloseF(S, t, e) == IF FileOpen(S, e.h) THEN Succ(S, t, e, [S EXCEPT !.file = Drop(@, {e.h})]) ELSE Fail(S, t, e, {6})

\* e.np: no buffer; e.hasread: a place for the count was passed; e.over: bytes written beyond the count;
\* (without that place the caller cannot know the count: e.got is then what was written)
Read(S, t, e) ==
  IF FileErrs(S, e) # {} THEN Keep(Fail(S, t, e, FileErrs(S, e)), e.over = 0)
  ELSE LET f == S.file[e.h]
           n == Min2(e.n, f.len - f.pos)
       IN  Keep(Succ(S, t, e, [S EXCEPT !.file[e.h].pos = @ + n]),
                /\ e.over = 0
                /\ (e.hasread => e.got = n)
                /\ (~e.hasread => e.got <= n)
                /\ Len(e.bytes) = e.got
                /\ \A i \in 1..Len(e.bytes) : e.bytes[i] = Byte(f.c, f.pos + i - 1))
Size(S, t, e) == IF ~FileOpen(S, e.h) THEN Fail(S, t, e, {6})
                 ELSE Keep(Succ(S, t, e, S), e.lo = S.file[e.h].len /\ (e.hashi => e.hi = 0))
\* the requested position: -1 when before the start, the size when beyond the end.
\* offset = e.lo (signed) without a high part, else e.hi * 2^32 + (e.lo as unsigned)
BIG == 1073741824
Clamp(base, off, len) == IF off > BIG THEN len
                         ELSE IF off < -BIG THEN -1
                         ELSE LET p == base + off IN IF p < 0 THEN -1 ELSE Min2(p, len)
Target(f, e) ==
  LET base == IF e.m = 0 THEN 0 ELSE IF e.m = 1 THEN f.pos ELSE f.len
  IN  IF e.m \notin 0..2 THEN -1
      ELSE IF ~e.hashi THEN Clamp(base, e.lo, f.len)
      ELSE IF e.hi > 0 THEN f.len
      ELSE IF e.hi = 0 THEN (IF e.lo < 0 THEN f.len ELSE Clamp(base, e.lo, f.len))
      ELSE IF e.hi = -1 THEN (IF e.lo >= 0 THEN -1 ELSE Clamp(base, e.lo, f.len))
      ELSE -1
Seek(S, t, e) ==
  IF ~FileOpen(S, e.h) THEN Fail(S, t, e, {6})
  ELSE LET p == Target(S.file[e.h], e)
       IN  IF p < 0 THEN Fail(S, t, e, {87})
           ELSE Keep(Succ(S, t, e, [S EXCEPT !.file[e.h].pos = p]), e.ret = p /\ (e.hashi => e.rhi = 0))
FName(S, t, e) == IF FileErrs(S, e) # {} THEN Fail(S, t, e, FileErrs(S, e))
                  ELSE Keep(Succ(S, t, e, S), e.val = S.file[e.h].name)

\* --- queries on archives ---
HasF(S, t, e) == IF ArchErrs(S, e) # {} THEN Fail(S, t, e, ArchErrs(S, e))
                 ELSE IF Has(S.arch[e.h].a, e.name) THEN Succ(S, t, e, S) ELSE Fail(S, t, e, {2})
AName(S, t, e) == IF e.np \/ e.n = 0 \/ ~ArchOpen(S, e.h)
                  THEN Fail(S, t, e, (IF e.np \/ e.n = 0 THEN {87} ELSE {}) \union (IF ArchOpen(S, e.h) THEN {} ELSE {6}))
                  ELSE IF e.n <= e.plens[S.arch[e.h].path] THEN Keep(Fail(S, t, e, {122}), e.over = 0)
                  ELSE Keep(Succ(S, t, e, S), e.val = S.arch[e.h].path /\ e.over = 0)
\* information classes: what is wanted and how many bytes it takes
InfoKnown(S, h, cls) == IF FileOpen(S, h) THEN cls \in {7, 10} ELSE cls \in {1, 2, 3, 4}
InfoBytes(cls) == IF cls \in {7, 10, 1} THEN 8 ELSE 4
InfoValue(S, h, cls) == IF FileOpen(S, h) THEN (IF cls = 7 THEN S.file[h].len ELSE S.file[h].pos)
                        ELSE LET a == S.arch[h].a IN CASE cls = 1 -> a.size [] cls = 2 -> a.hs [] cls = 3 -> a.bs [] OTHER -> a.sec
Info(S, t, e) ==
  LET there == FileOpen(S, e.h) \/ ArchOpen(S, e.h)
  IN  IF e.np \/ ~there THEN Fail(S, t, e, (IF e.np THEN {87} ELSE {}) \union (IF there THEN {} ELSE {6}))
      ELSE IF ~InfoKnown(S, e.h, e.cls) THEN Keep(Fail(S, t, e, {50}), e.over = 0)
      ELSE IF e.n < InfoBytes(e.cls) THEN Keep(Fail(S, t, e, {122}), e.over = 0 /\ (e.hasneed => e.need = InfoBytes(e.cls)))
      ELSE Keep(Succ(S, t, e, S), /\ e.over = 0
                                  /\ (e.hasneed => e.need = InfoBytes(e.cls))
                                  /\ InfoValue(S, e.h, e.cls) \in {e.val, -1})

\* --- enumeration: every name that matches, each once, until the callback declines ---
\* masks are "" or "*" (everything), or *text* / *text where text (e.mask) occurs only where both readings agree
Contains(name, m) == \E k \in 0..(Len(name) - Len(m)) : SubSeq(name, k + 1, k + Len(m)) = m
Matching(a, m) == {i \in 1..Len(a.files) : Contains(a.files[i].name, m)}
NamesIn(a, is) == {a.files[i].name : i \in is}
Distinct(s) == \A i, j \in 1..Len(s) : i < j => s[i] # s[j]
EnumOk(a, e) == LET ms == NamesIn(a, Matching(a, e.mask))
                    n == Cardinality(ms)
                    want == IF e.stop = 0 THEN n ELSE Min2(e.stop, n)
                IN  ~a.list \/ (Len(e.cbs) = want /\ Distinct(e.cbs) /\ \A i \in 1..Len(e.cbs) : e.cbs[i] \in ms)
EnumErrs(S, e) == (IF e.np THEN {87} ELSE {}) \union (IF ArchOpen(S, e.h) THEN {} ELSE {6})
Enum(S, t, e) == IF EnumErrs(S, e) # {} THEN Keep(Fail(S, t, e, EnumErrs(S, e)), e.cbs = <<>>)
                 ELSE Keep(Succ(S, t, e, S), EnumOk(S.arch[e.h].a, e))

\* --- extraction: e.there says whether the destination can be written; e.bytes is what it holds afterwards ---
Extract(S, t, e) ==
  IF ArchErrs(S, e) # {} THEN Keep(Fail(S, t, e, ArchErrs(S, e)), ~e.written)
  ELSE LET a == S.arch[e.h].a
       IN  IF ~Has(a, e.name) THEN Keep(Fail(S, t, e, {2}), ~e.written)
           ELSE IF Get(a, e.name).bad THEN Keep(Fail(S, t, e, {1392}), ~e.written)
           ELSE IF ~e.there THEN Fail(S, t, e, {5})
           ELSE Keep(Succ(S, t, e, S), e.written /\ e.bytes = Content(Get(a, e.name)))

\* --- verification: flags 1 sector checksums, 2 recorded CRC32, 4 recorded MD5, 16 signature, 32 all files ---
FileSound(f, flags) == /\ (Bit(flags, 1) /\ f.crc => ~f.bad)
                       /\ (Bit(flags, 2) /\ f.attr # "none" => ~f.bad /\ f.attr # "badcrc")
                       /\ (Bit(flags, 4) /\ f.attr # "none" => ~f.bad /\ f.attr # "badmd5")
VerifyF(S, t, e) ==
  IF ArchErrs(S, e) # {} THEN Fail(S, t, e, ArchErrs(S, e))
  ELSE LET a == S.arch[e.h].a
       IN  IF ~Has(a, e.name) THEN Fail(S, t, e, {2})
           ELSE IF FileSound(Get(a, e.name), IF e.flags = 0 THEN 255 ELSE e.flags) THEN Succ(S, t, e, S)
           ELSE Fail(S, t, e, {1392})
AllSound(a) == \A i \in 1..Len(a.files) : a.files[i].special \/ FileSound(a.files[i], 7)
VerifyA(S, t, e) ==
  IF ~ArchOpen(S, e.h) THEN Fail(S, t, e, {6})
  ELSE LET a == S.arch[e.h].a
           fl == IF e.flags = 0 THEN 16 ELSE e.flags
           badsig == Bit(fl, 16) /\ a.sig
           badfile == Bit(fl, 32) /\ ~AllSound(a)
       IN  IF badsig THEN Fail(S, t, e, {1392})
           ELSE IF badfile THEN Fail(S, t, e, {1392}) \union (IF a.list THEN {} ELSE Succ(S, t, e, S))
           ELSE Succ(S, t, e, S)

\* --- per thread settings ---
GetErr(S, t, e) == Keep({S}, e.val = S.err[t] /\ e.err = S.err[t])
SetErr(S, t, e) == Keep({[S EXCEPT !.err[t] = e.val]}, e.err = e.val)
GetLoc(S, t, e) == Keep({S}, e.val = S.loc[t] /\ e.err = S.err[t])
SetLoc(S, t, e) == Keep({[S EXCEPT !.loc[t] = e.new]}, e.val = S.loc[t] /\ e.err = S.err[t])

After(S, t, e) ==
  CASE e.f = "openA" -> OpenA(S, t, e)      [] e.f = "createA" -> CreateA(S, t, e)
    [] e.f = "closeA" -> CloseA(S, t, e)    [] e.f = "openF" -> OpenF(S, t, e)
    [] e.f = "closeF" -> CloseF(S, t, e)    [] e.f = "read" -> Read(S, t, e)
    [] e.f = "size" -> Size(S, t, e)        [] e.f = "seek" -> Seek(S, t, e)
    [] e.f = "fname" -> FName(S, t, e)      [] e.f = "has" -> HasF(S, t, e)
    [] e.f = "aname" -> AName(S, t, e)      [] e.f = "info" -> Info(S, t, e)
    [] e.f = "enum" -> Enum(S, t, e)        [] e.f = "extract" -> Extract(S, t, e)
    [] e.f = "verifyF" -> VerifyF(S, t, e)  [] e.f = "verifyA" -> VerifyA(S, t, e)
    [] e.f = "getErr" -> GetErr(S, t, e)    [] e.f = "setErr" -> SetErr(S, t, e)
    [] e.f = "getLoc" -> GetLoc(S, t, e)    [] e.f = "setLoc" -> SetLoc(S, t, e)

\* --- properties of the design (checked on MCFfi) ---
\* every open file belongs to an open archive; nothing is open that was not issued; kinds do not mix
HandlesSound(S) == /\ \A h \in DOMAIN S.file : S.file[h].a \in DOMAIN S.arch
                   /\ DOMAIN S.file \union DOMAIN S.arch \subseteq S.issued
                   /\ DOMAIN S.file \intersect DOMAIN S.arch = {}
                   /\ NULLH \notin S.issued
PositionsSound(S) == \A h \in DOMAIN S.file : S.file[h].pos \in 0..S.file[h].len
=============================================================================
