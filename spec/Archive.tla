------------------------------ MODULE Archive ------------------------------
(***************************************************************************)
(* What a user of the library sees: a builder collects files, a build turns *)
(* them into an archive (or fails), and handles on the archive answer       *)
(* lookups, reads, listings and summaries.                                  *)
(*                                                                         *)
(* A file is [name, loc, len, dig, method, enc, src]: dig stands for its    *)
(* content, enc is 0 (plain), 1 (encrypted) or 2 (position-adjusted key),   *)
(* src is "mem", "disk" or "gone" (a source that cannot be read).           *)
(***************************************************************************)
EXTENDS Names, NameList, FiniteSets

VARIABLES cfg,      \* builder options [ver, sector, crc, list]
          pending,  \* files added so far
          phase,    \* "building", "built", "failed"
          handles,  \* open handles: handle -> "loaded" | "deferred"
          memo      \* answers given so far, as pairs <<query, answer>>

vars == <<cfg, pending, phase, handles, memo>>

Lossless == {0, 2, 8, 16, 18, 32}

\* --- the stored files ---------------------------------------------------
Key(f) == <<f.norm, f.loc>>
Listed(c) == c.list # "none"
ListKey == <<Norm(LISTFILE), 0>>
DupKeys(fs, c) == \/ \E i, j \in 1..Len(fs) : i < j /\ Key(fs[i]) = Key(fs[j])
                  \/ Listed(c) /\ \E i \in 1..Len(fs) : Key(fs[i]) = ListKey
Readable(fs, c) == (\A i \in 1..Len(fs) : fs[i].src # "gone") /\ c.list # "gone"
Supported(fs) == \A i \in 1..Len(fs) : fs[i].method \in Lossless
MayBuild(fs, c) == ~DupKeys(fs, c) /\ Readable(fs, c)
MayFail(fs, c)  == DupKeys(fs, c) \/ ~Readable(fs, c) \/ ~Supported(fs) \/ ~(c.def \in Lossless)

Matches(name) == LET k == Norm(name) IN {i \in 1..Len(pending) : pending[i].norm = k}
IsList(name) == Listed(cfg) /\ Norm(name) = Norm(LISTFILE)
Present(name) == Matches(name) # {} \/ IsList(name)
StoredCount == Len(pending) + (IF Listed(cfg) THEN 1 ELSE 0)
NamesStored == LET ns == [i \in 1..Len(pending) |-> pending[i].name]
               IN  IF cfg.list = "gen" THEN Append(ns, LISTFILE) ELSE ns

\* --- actions -------------------------------------------------------------
Init == /\ cfg = [ver |-> 1, sector |-> 512, crc |-> FALSE, list |-> "none", def |-> 2]
        /\ pending = <<>> /\ phase = "idle" /\ handles = <<>> /\ memo = {}

Begin(c) == /\ cfg' = c
            /\ pending' = <<>> /\ phase' = "building" /\ handles' = <<>> /\ memo' = {}

Add(f) == /\ phase = "building"
          /\ pending' = Append(pending, [f EXCEPT !.norm = Norm(f.name)])
          /\ UNCHANGED <<cfg, phase, handles, memo>>

Build(ok) == /\ phase = "building"
             /\ IF ok THEN MayBuild(pending, cfg) /\ phase' = "built"
                      ELSE MayFail(pending, cfg) /\ phase' = "failed"
             /\ UNCHANGED <<cfg, pending, handles, memo>>

Open(h, deferred) == /\ phase = "built" /\ h \notin DOMAIN handles
                     /\ handles' = [x \in DOMAIN handles \union {h} |->
                                      IF x = h THEN (IF deferred THEN "deferred" ELSE "loaded") ELSE handles[x]]
                     /\ UNCHANGED <<cfg, pending, phase, memo>>
Close(h) == /\ h \in DOMAIN handles
            /\ handles' = [x \in DOMAIN handles \ {h} |-> handles[x]]
            /\ UNCHANGED <<cfg, pending, phase, memo>>

Loaded(h) == handles' = [handles EXCEPT ![h] = "loaded"]

\* a query q got the answer a (a string that stands for the whole answer):
\* the same query never gets two different answers, whatever happened before
Consistent(q, a) == \A m \in memo : m[1] = q => m[2] = a
Remember(q, a) == /\ Consistent(q, a) /\ memo' = memo \union {<<q, a>>}

\* lookups do not load tables: on a handle with deferred tables they may be
\* refused (known finding C18-find-deferred)
FindRefused(h) == /\ h \in DOMAIN handles /\ handles[h] = "deferred"
                  /\ UNCHANGED vars
\* what a lookup reports about file i / about the name list
Describes(r, f) == /\ r.size = f.len
                   /\ r.enc = (f.enc > 0)
                   /\ r.fix = (f.enc = 2)
                   /\ r.crc = cfg.crc
                   /\ (r.csize < r.size => r.comp)
                   /\ (~r.comp => r.csize = r.size)
DescribesList(r) == ~r.enc /\ ~r.fix /\ r.crc = cfg.crc
FoundAs(name, r) == \/ \E i \in Matches(name) : Describes(r, pending[i])
                    \/ IsList(name) /\ DescribesList(r)
Find(h, name, r) == /\ h \in DOMAIN handles
                    /\ IF Present(name) THEN r.res = "some" /\ FoundAs(name, r)
                                        ELSE r.res = "none"
                    /\ Remember(<<"find", name>>, r.sig)
                    /\ UNCHANGED <<cfg, pending, phase, handles>>

\* the content of the generated name list: every stored name once, when all
\* names can be carried by a list
AllRepresentable == \A i \in 1..Len(pending) : Representable(pending[i].name)
Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
SameBag(s, t) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : Count(s, s[i]) = Count(t, s[i])
ListTextOk(text) == AllRepresentable => SameBag(ParseList(text), NamesStored)

ReadOk(name, r) == \/ \E i \in Matches(name) : pending[i].len = r.len /\ pending[i].dig = r.dig
                   \/ IsList(name) /\ (cfg.list = "gen" /\ r.hastext => ListTextOk(r.text))
                                   /\ (cfg.list = "ext" => r.dig = cfg.extdig)
Read(h, name, r) == /\ h \in DOMAIN handles
                    /\ IF Present(name) THEN r.res = "ok" /\ ReadOk(name, r)
                                        ELSE r.res = "notfound"
                    /\ Remember(<<"read", name>>, r.sig)
                    /\ Loaded(h)
                    /\ UNCHANGED <<cfg, pending, phase>>

\* listing by name: entries name stored files; a generated list names them all once
\* (a name list the user supplied may be incomplete)
EntriesOk(items) == \A i \in 1..Len(items) : Present(items[i].name) /\ FoundAs(items[i].name, items[i])
ListingOk(items) ==
  /\ AllRepresentable => SameBag([i \in 1..Len(items) |-> items[i].name], NamesStored)
  /\ EntriesOk(items)
\* enumeration of the tables: every stored file once, names not known
Shape(f) == <<f.len, f.enc > 0, f.enc = 2>>
ShapeOf(it) == <<it.size, it.enc, it.fix>>
EnumOk(items) ==
  /\ Len(items) = StoredCount
  /\ \A i \in 1..Len(pending) :
        LET s == Shape(pending[i])
            want == Cardinality({j \in 1..Len(pending) : Shape(pending[j]) = s})
            got  == Cardinality({j \in 1..Len(items) : ShapeOf(items[j]) = s})
        IN  got >= want /\ got <= want + 1
  /\ \A i \in 1..Len(items) : items[i].crc = cfg.crc
List(h, kind, r) ==
  /\ h \in DOMAIN handles
  /\ r.res = "ok"
  /\ IF kind \in {"list", "listh"} /\ Present(LISTFILE)
     THEN IF cfg.list = "gen" /\ Matches(LISTFILE) = {} THEN ListingOk(r.items) ELSE EntriesOk(r.items)
     ELSE EnumOk(r.items)
  /\ Remember(<<"list", kind>>, r.sig)
  /\ Loaded(h)
  /\ UNCHANGED <<cfg, pending, phase>>

Info(h, r) == /\ h \in DOMAIN handles
              /\ r.res = "ok"
              /\ r.count = StoredCount
              /\ r.max >= StoredCount
              /\ r.ver = cfg.ver
              /\ r.sector = cfg.sector
              /\ r.offset = 0
              /\ r.fsize = r.truesize
              /\ r.haslist = Present(LISTFILE)
              /\ r.hasattr = Present(ATTRIBUTES)
              /\ r.hassig = Present(SIGNATURE)
              /\ r.enc = (\E i \in 1..Len(pending) : pending[i].enc > 0)
              /\ r.user = FALSE
              /\ Remember(<<"info">>, r.sig)
              /\ Loaded(h)
              /\ UNCHANGED <<cfg, pending, phase>>

Verify(h, r) == /\ h \in DOMAIN handles
                /\ (~Present(SIGNATURE) => r.res = "None")
                /\ (Present(SIGNATURE) => r.res \notin {"WeakValid", "StrongValid", "panic"})
                /\ Remember(<<"verify">>, r.sig)
                /\ Loaded(h)
                /\ UNCHANGED <<cfg, pending, phase>>

\* attributes: absent without such a file, and otherwise one entry per stored file (or all attempts fail)
Attrs(h, r) == /\ h \in DOMAIN handles
               /\ r.res # "panic" /\ r.each
               /\ (~Present(ATTRIBUTES) => r.n = -1)
               /\ (r.n >= 0 => r.res = "ok" /\ r.n = StoredCount)
               /\ Remember(<<"attrs">>, r.sig)
               /\ Loaded(h)
               /\ UNCHANGED <<cfg, pending, phase>>
\* header, user data and place of the archive
Peek(h, r) == /\ h \in DOMAIN handles /\ r.offset = 0
              /\ Remember(<<"peek">>, r.sig)
              /\ UNCHANGED <<cfg, pending, phase, handles>>
Load(h, ok) == /\ h \in DOMAIN handles /\ ok /\ Loaded(h) /\ UNCHANGED <<cfg, pending, phase, memo>>

\* the archive file itself: only a build writes it
FileIs(dig) == Remember(<<"file">>, dig) /\ UNCHANGED <<cfg, pending, phase, handles>>
=============================================================================
