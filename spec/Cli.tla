-------------------------------- MODULE Cli --------------------------------
(***************************************************************************)
(* The command line tool: what each command may do to the file tree and     *)
(* what it reports, given the tree and the archive it works on.             *)
(*                                                                           *)
(* fs   the file tree: path -> "dir" or the digest of the file's content     *)
(* arc  what is known about the archive at ARC:                              *)
(*      there, opens   the file exists / can be opened                       *)
(*      files          stored name -> [d, len]                               *)
(*      exact          every stored name can be carried by a name list       *)
(*      named          it has a name list                                    *)
(*      view           listed name -> digest, "any" or "bad" (unreadable)    *)
(*      lists          its name list can be read                             *)
(*      told           its headers and tables can be described               *)
(*      digests        all stored digests are intact                         *)
(*      ver, sector, count (-1: not known)                                                   *)
(***************************************************************************)
EXTENDS CliPath, NameList, TLC
N == INSTANCE Names
VARIABLES fs, arc, whole, conf   \* whole: the archive before damage; conf: the stored settings

ARC == <<<<97, 46, 109, 112, 113>>>>          \* a.mpq
NoArc == [there |-> FALSE, opens |-> FALSE, files |-> <<>>, exact |-> TRUE, named |-> FALSE, view |-> <<>>, lists |-> FALSE, told |-> FALSE, digests |-> FALSE,
          ver |-> 0, sector |-> 0, count |-> 0]

Tree(t) == [p \in {t[i][1] : i \in 1..Len(t)} |-> (CHOOSE i \in 1..Len(t) : t[i][1] = p) ]
TreeOf(t) == LET ix == TLCEval(Tree(t)) IN [p \in DOMAIN ix |-> t[ix[p]][2]]
IsFile(f, p) == p \in DOMAIN f /\ f[p] # "dir"
IsDir(f, p) == p \in DOMAIN f /\ f[p] = "dir"
Same(a, b, p) == (p \in DOMAIN a) = (p \in DOMAIN b) /\ (p \in DOMAIN a => a[p] = b[p])
\* the trees agree on every path for which P does not hold; directories on the way to dir may appear
AgreeOutside(a, b, P(_), dir) == TRUE =
  \A p \in (DOMAIN a) \union (DOMAIN b) : P(p) \/ Same(a, b, p) \/ (p \notin DOMAIN a /\ b[p] = "dir" /\ Beneath(p, dir))
Unchanged(t) == fs = t

Carried(n) == n # <<>> /\ (\A i \in 1..Len(n) : n[i] \notin {10, 13}) /\ EntryOf(n) = n
\* two names of the set are one name to an archive
Folded(ns) == Cardinality({N!Norm(n) : n \in ns}) < Cardinality(ns)
Stored(n) == {m \in DOMAIN arc.files : N!SameName(m, n)}

-----------------------------------------------------------------------------
\* which files of the tree a create command selects, and under which names
RelTo(src, p) == SubSeq(p, Len(src) + 1, Len(p))
NameIn(src, p) == Join(RelTo(src, p))
IgnoredBy(pat, rel) == \/ Occurs(pat.text, Join(rel))
                       \/ pat.glob /\ (PatMatch(pat.pat, Join(rel)) \/ PatMatch(pat.pat, Last(rel)))
Chosen(e, p) == /\ IsFile(fs, p)
                /\ IF IsFile(fs, e.src) THEN p = e.src
                   ELSE /\ Inside(e.src, p)
                        /\ e.deep \/ Len(p) = Len(e.src) + 1
                        /\ \A i \in 1..Len(e.ignore) : ~IgnoredBy(e.ignore[i], RelTo(e.src, p))
NameFor(e, p) == IF IsFile(fs, e.src) THEN Last(p) ELSE NameIn(e.src, p)
MadeFrom(e) ==
  LET sel == {p \in DOMAIN fs : Chosen(e, p)}
      names == {NameFor(e, p) : p \in sel}
      src(n) == CHOOSE p \in sel : NameFor(e, p) = n
  IN [n \in names |-> [d |-> fs[src(n)], len |-> e.lens[CHOOSE i \in 1..Len(e.lens) : e.lens[i][1] = src(n)][2]]]
\* an archive holding files, with the name list given
WithList(files, list, ver, sector) ==
  LET ns == DOMAIN files
      \* a name the list cannot carry may come out as another one, which is listed if a file is found under it
      found(m) == {n \in ns : N!SameName(n, m)}
      seen == CASE list = "gen" -> {m \in {EntryOf(n) : n \in ns} : m # <<>> /\ found(m) # {}} [] list = "none" -> {}
  IN [there |-> TRUE, opens |-> TRUE, files |-> files, exact |-> \A n \in ns : Carried(n), named |-> list = "gen", lists |-> TRUE, told |-> TRUE, digests |-> TRUE,
      view |-> [n \in seen \union (IF list = "gen" THEN {N!LISTFILE} ELSE {}) |-> IF n \in seen THEN files[CHOOSE m \in found(n) : TRUE].d ELSE "any"],
      ver |-> ver, sector |-> sector, count |-> Cardinality(ns) + (IF list = "gen" THEN 1 ELSE 0)]

\* the settings a user stores: what is not valid is refused and changes nothing; what is valid shows and is used by later creations
Methods == {"none", "zlib", "bzip2", "lzma", "sparse", "pkware", "adpcm-mono", "adpcm-stereo"}
Settings == [default_compression |-> Methods, default_version |-> {ToString(k) : k \in 1..4},
             default_block_size |-> {ToString(k) : k \in 0..23}, default_output |-> {"text", "json", "csv"}]
Defaults == [default_compression |-> "zlib", default_version |-> "1", default_block_size |-> "3", default_output |-> "text"]
NumberOf(s) == CHOOSE k \in 0..23 : ToString(k) = s
Config(e, t) ==
  /\ Unchanged(t) /\ UNCHANGED <<fs, arc, whole>>
  /\ LET may == e.act # "set" \/ (e.key \in DOMAIN Settings /\ e.val \in Settings[e.key]) IN
     /\ (e.exit = 0) = may
     /\ conf' = IF ~may THEN conf ELSE CASE e.act = "set" -> [conf EXCEPT ![e.key] = e.val] [] e.act = "reset" -> Defaults [] OTHER -> conf
  /\ e.shown = conf'

Create(e, t) ==
  LET files == MadeFrom(e)
      ver == IF e.stored THEN NumberOf(conf.default_version) ELSE e.ver
      bs == IF e.stored THEN NumberOf(conf.default_block_size) ELSE e.bs
      can == e.src \in DOMAIN fs /\ ~Folded(DOMAIN files) /\ N!LISTFILE \notin DOMAIN files
  IN IF can THEN /\ e.exit = 0
                 /\ IsFile(t, ARC) /\ AgreeOutside(fs, t, LAMBDA p : p = ARC, <<>>)
                 /\ fs' = t /\ arc' = WithList(files, e.list, ver, 512 * 2^bs) /\ whole' = arc'
     ELSE /\ e.exit # 0 /\ Unchanged(t) /\ UNCHANGED <<fs, arc, whole>>

\* an archive put there by other means (the library), and damage done to it
Put(e, t) == /\ fs' = t
             /\ arc' = WithList([n \in {e.files[i].name : i \in 1..Len(e.files)} |->
                                  LET k == CHOOSE i \in 1..Len(e.files) : e.files[i].name = n IN [d |-> e.files[k].d, len |-> e.files[k].len]],
                                e.list, e.ver, 512 * 2^e.bs)
             /\ whole' = arc'
Restore(e, t) == fs' = t /\ arc' = whole /\ UNCHANGED whole
\* what remains readable after damage is observed through the library (its own properties are C05 to C07)
Damage(e, t) ==
  /\ fs' = t /\ UNCHANGED whole
  /\ LET seen == {e.obs.view[i][1] : i \in 1..Len(e.obs.view)} IN
     arc' = [arc EXCEPT !.opens = e.obs.opens, !.lists = e.obs.lists, !.told = e.obs.described, !.named = e.obs.named, !.exact = FALSE, !.count = -1, !.digests = @ /\ ~(e.region = "digested" /\ e.changed),
                        !.view = [n \in seen |-> e.obs.view[CHOOSE i \in 1..Len(e.obs.view) : e.obs.view[i][1] = n][2]]]

-----------------------------------------------------------------------------
Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
\* listed names: exactly the wanted ones, each once
NamesOk(got, want) == TRUE = IF arc.exact THEN (\A i \in 1..Len(got) : got[i] \in want) /\ (\A n \in want : Count(got, n) = 1)
                      ELSE \A n \in want : Count(got, n) >= 1
\* text output has other lines too: each wanted name is one line, no other stored name is
LinesOk(got, want) == TRUE = ((\A n \in want : IF arc.exact THEN Count(got, n) = 1 ELSE Count(got, n) >= 1) /\ (arc.exact => \A n \in (DOMAIN arc.view) \ want : Count(got, n) = 0))
Wanted(e) == {n \in DOMAIN arc.view : e.pat.on => PatMatch(e.pat.pat, n)}
List(e, t) ==
  /\ Unchanged(t) /\ UNCHANGED <<fs, arc, whole>>
  /\ IF ~arc.opens \/ ~arc.lists THEN e.exit # 0
     ELSE /\ e.exit = 0
          /\ IF e.all THEN (e.form = "json" /\ ~e.pat.on /\ arc.count >= 0 => Len(e.names) = arc.count)
             ELSE IF ~arc.named THEN (e.form = "json" /\ ~e.pat.on /\ arc.count >= 0 => Len(e.names) = arc.count)
             ELSE CASE e.form = "json" -> NamesOk(e.names, Wanted(e))
                    [] e.form = "text" -> LinesOk(e.lines, Wanted(e))
                    [] e.form = "long" -> TRUE
Find(e, t) ==
  /\ Unchanged(t) /\ UNCHANGED <<fs, arc, whole>>
  /\ IF ~arc.opens \/ ~arc.lists THEN e.exit # 0
     ELSE e.exit = 0 /\ (arc.named => NamesOk(e.lines, Wanted(e)))
FileInfo(e, t) ==
  /\ Unchanged(t) /\ UNCHANGED <<fs, arc, whole>>
  /\ IF arc.opens /\ Stored(e.name) # {} THEN e.exit = 0 /\ e.size = arc.files[CHOOSE m \in Stored(e.name) : TRUE].len
     ELSE IF arc.opens /\ arc.named /\ N!SameName(e.name, N!LISTFILE) THEN e.exit = 0
     ELSE e.exit # 0
ArchiveInfo(e, t) ==
  /\ Unchanged(t) /\ UNCHANGED <<fs, arc, whole>>
  /\ IF arc.opens /\ arc.told THEN e.exit = 0 /\ e.ver = arc.ver /\ e.sector = arc.sector /\ e.count = arc.count ELSE e.exit # 0
Verify(e, t) ==
  /\ Unchanged(t) /\ UNCHANGED <<fs, arc, whole>>
  /\ (e.exit = 0) = (arc.opens /\ arc.lists /\ arc.told /\ arc.digests /\ (e.contents /\ arc.named => \A n \in DOMAIN arc.view : arc.view[n] # "bad"))

-----------------------------------------------------------------------------
\* extraction of everything
At(dir, n, keep) == dir \o Dest(n, keep)
Obstacle(p) == IsDir(fs, p) \/ \E k \in 1..(Len(p) - 1) : IsFile(fs, SubSeq(p, 1, k))
Clash(n, keep) == \E m \in DOMAIN arc.view : m # n /\ Dest(m, keep) # NoPath
                     /\ (Beneath(Dest(m, keep), Dest(n, keep)) \/ Beneath(Dest(n, keep), Dest(m, keep)))
Fine(dir, n, keep) == Writable(Dest(n, keep)) /\ ~Clash(n, keep) /\ arc.view[n] # "bad" /\ ~Obstacle(At(dir, n, keep))
\* entries of an archive without a name list are taken as file_<number>.dat, a name a stored file may bear
AnonLike == ~arc.named /\ \E n \in DOMAIN arc.files : Len(n) >= 5 /\ LowerName(SubSeq(n, 1, 5)) = <<102, 105, 108, 101, 95>>
ExtractAll(e, t) ==
  LET dir == e.target
      ns == DOMAIN arc.view
      good == {arc.view[n] : n \in ns}
      beneath == {p \in DOMAIN t : Inside(dir, p) /\ t[p] # "dir"}
      reported == e.exit # 0 /\ e.said
  IN /\ AgreeOutside(fs, t, LAMBDA p : Inside(dir, p), dir)
     \* nothing is lost beneath, and what is new is the content of an entry
     /\ \A p \in DOMAIN fs : Inside(dir, p) => p \in DOMAIN t
     /\ TRUE = (\A p \in beneath : Same(fs, t, p) \/ t[p] \in good \/ "any" \in good \/ AnonLike)
     /\ UNCHANGED <<arc, whole>> /\ fs' = t
     /\ IF ~arc.opens \/ ~arc.lists THEN e.exit # 0 /\ Unchanged(t)
        ELSE IF ~arc.named THEN (arc.count > 0 /\ ~AnonLike => e.exit # 0)
        ELSE /\ TRUE = \A n \in ns :
                  IF Fine(dir, n, e.keep)
                  THEN At(dir, n, e.keep) \in beneath /\ (arc.view[n] # "any" => t[At(dir, n, e.keep)] = arc.view[n])
                  ELSE IF arc.view[n] = "bad" THEN reported
                  ELSE IF Writable(Dest(n, e.keep)) THEN TRUE
                  ELSE reported \/ arc.view[n] = "any" \/ \E p \in beneath : t[p] = arc.view[n]
             /\ TRUE = ((arc.exact /\ \A n \in ns : Fine(dir, n, e.keep)) => e.exit = 0)

\* extraction of one file: into a given file, into a given directory, or into the current directory
ExtractOne(e, t) ==
  LET ms == Stored(e.name)
      place == CASE e.to = "file" -> e.target
                 [] e.to \in {"dir", "here"} -> (IF Dest(e.name, e.keep) = NoPath THEN NoPath ELSE e.target \o Dest(e.name, e.keep))
      m == CHOOSE x \in ms : TRUE
  IN IF arc.opens /\ ms # {} /\ place # NoPath /\ ~Obstacle(place) /\ Writable(place)
     THEN /\ e.exit = 0 /\ IsFile(t, place) /\ t[place] = arc.files[m].d
          /\ AgreeOutside(fs, t, LAMBDA p : p = place, place)
          /\ fs' = t /\ UNCHANGED <<arc, whole>>
     ELSE /\ TRUE = ((arc.named /\ N!SameName(e.name, N!LISTFILE)) \/ (e.exit # 0 /\ \A p \in DOMAIN t : Same(fs, t, p) \/ t[p] = "dir"))
          /\ fs' = t /\ UNCHANGED <<arc, whole>>
=============================================================================
