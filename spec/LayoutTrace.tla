---------------------------- MODULE LayoutTrace -----------------------------
(***************************************************************************)
(* Images of archives and what the library makes of them.                   *)
(* image   a file that some writer (the independent encoder, or the         *)
(*         library) produced                                                *)
(* holds   the image decodes to exactly these files (what the writer was    *)
(*         given)                                                           *)
(* format  further demands on an archive the library wrote                  *)
(* read, find, list, info   answers of the library, judged by the image     *)
(***************************************************************************)
EXTENDS Layout, NameList, TraceLib
VARIABLES img, dec
lvars == <<img, dec>>
vars == <<img, dec, l, skip, bad, known, done>>
NoImage == [runs |-> <<>>, packs |-> <<>>, digests |-> <<>>, size |-> Addr(0)]

Contents(name) == {Content(img, dec, ix, name) : ix \in BlocksOf(dec, name)}
\* what a writer was given: each name has this content, and no other entries are in use
Holds(e) ==
  /\ dec.ok
  /\ TRUE = (\A i \in 1..Len(e.files) : e.files[i].bytes \in Contents(e.files[i].name))
  /\ TRUE = (\A i \in 1..Len(e.absent) : BlocksOf(dec, e.absent[i]) = {})

-----------------------------------------------------------------------------
\* what the library writes beyond being decodable
Digest(at, n) == {img.digests[i].md5 : i \in {j \in 1..Len(img.digests) : img.digests[j].at = at /\ img.digests[j].n = n}}
Span(at, n) == [at |-> at, n |-> n]
Disjoint(a, b) == a.n = 0 \/ b.n = 0 \/ ALeq(AAdd(a.at, a.n), b.at) \/ ALeq(AAdd(b.at, b.n), a.at)
InUse(h) == {s \in 0..(h.head.hashn - 1) : h.tab.hash[s].ix \notin {FFFFFFFF, FFFFFFFE}}
Stored(blk, crc, n) == ToNat(blk.csize) + (IF crc THEN 4 * n ELSE 0)
\* where the files of an archive are: bound as values, one evaluation each
Placed(names) == [i \in 1..Len(names) |-> LET ss == Slots(dec, names[i]) IN
                    [slots |-> ss, slot |-> IF ss = {} THEN 0 ELSE CHOOSE s \in ss : TRUE]]
Sectors(blk) == (ToNat(blk.fsize) + dec.head.sector - 1) \div dec.head.sector
Crc(blk) == Flag(blk.flags, SECTORCRC)
CrcN(blk) == IF ~Crc(blk) THEN 0 ELSE IF Flag(blk.flags, SINGLE) THEN 1 ELSE Sectors(blk)
TableSpans == LET h == dec.head IN
   <<Span(Addr(0), h.hsize), Span(h.hashpos, 16 * h.hashn), Span(h.blockpos, 16 * h.blockn)>>
   \o (IF h.hipos # Addr(0) THEN <<Span(h.hipos, 2 * h.blockn)>> ELSE <<>>)
   \o (IF h.ver >= 4 /\ h.hetpos # Addr(0) THEN <<Span(h.hetpos, ADiff(h.sizes.het, Addr(0))), Span(h.betpos, ADiff(h.sizes.bet, Addr(0)))>> ELSE <<>>)

\* sectors and checksums of one file
SectorsOk(f, ix, blk) ==
  LET n == Sectors(blk)
      first == 4 * (n + 1) + (IF Crc(blk) THEN 4 * n ELSE 0)
      S == dec.head.sector
  IN IF Flag(blk.flags, SINGLE)
     THEN Crc(blk) => LET at == AAdd(blk.pos, ToNat(blk.csize)) IN Has(img, at, 4) /\ Word4(Fetch(img, at, 4), 0) = Adler(f.bytes)
     ELSE Packed(blk) /\ n > 0 =>
       \E off \in {TLCEval(Offsets(img, dec, ix, f.name))} :
         /\ off[1] = FromNat(first)
         /\ ToNat(off[n + 1]) = ToNat(blk.csize) + (IF Crc(blk) THEN 4 * n ELSE 0)
         /\ Crc(blk) => \A k \in 1..n : Word4(Fetch(img, AAdd(blk.pos, 4 * (n + 1) + 4 * (k - 1)), 4), 0)
                                        = Adler(SubSeq(f.bytes, S * (k - 1) + 1, Least(S * k, Len(f.bytes))))
\* an entry says how its file is kept
EntryOk(f, he, ix, blk) ==
  /\ Flag(blk.flags, EXISTS)
  /\ he.plat = 0 /\ he.loc = f.loc
  /\ blk.fsize = FromNat(Len(f.bytes))
  /\ (Flag(blk.flags, ENCRYPTED) <=> f.enc >= 1) /\ (Flag(blk.flags, FIXKEY) <=> f.enc = 2)
  /\ ~Flag(blk.flags, DELETED) /\ ~Flag(blk.flags, IMPLODE)
  /\ SectorsOk(f, ix, blk)
\* --- the extended block table: bit fields, one entry per file, and the 64-bit name hashes ---
\* n <= 16 bits from bit o (0 is the lowest bit of the first byte)
Byte(b, k) == IF k <= Len(b) THEN b[k] ELSE 0
Limb(b, o, n) == LET k == o \div 8 + 1 IN ((Byte(b, k) + 256 * Byte(b, k + 1) + 65536 * Byte(b, k + 2)) \div 2^(o % 8)) % 2^n
BitField(b, o, n) == IF n <= 16 THEN <<0, Limb(b, o, n)>> ELSE <<Limb(b, o + 16, n - 16), Limb(b, o, 16)>>
BETHEAD == 76
\* the table's data: stored as it is, or compressed as a whole and then encrypted
Extended(at, size, key) ==
  LET d == ToNat(Word4(Fetch(img, at, 12), 8))
      b == Plain(Fetch(img, AAdd(at, 12), size - 12), key)
      ps == {i \in 1..Len(img.packs) : img.packs[i].how = 0 /\ img.packs[i].z = b /\ Len(img.packs[i].p) = d}
  IN IF size = 12 + d THEN b ELSE IF ps = {} THEN Bad ELSE img.packs[CHOOSE i \in ps : TRUE].p
\* where it is: version 4 says how large it is as stored
BetSize(h) == IF h.ver >= 4 THEN ADiff(h.sizes.bet, Addr(0)) ELSE 12 + ToNat(Word4(Fetch(img, h.betpos, 12), 8))
BetEntries(b, n) ==
  LET w(k) == ToNat(Word4(b, 4 * k))       \* k-th word of the header
      es == w(3)
      nf == w(18)
      flags == [k \in 0..(nf - 1) |-> Word4(b, BETHEAD + 4 * k)]
      tab == SubSeq(b, BETHEAD + 4 * nf + 1, Len(b))
      hs == BETHEAD + 4 * nf + (n * es + 7) \div 8
      f(j, k) == BitField(tab, j * es + w(4 + k), w(9 + k))
  IN [j \in 0..(n - 1) |-> [pos |-> AOfWord(f(j, 0), 0), fsize |-> f(j, 1), csize |-> f(j, 2),
                            flags |-> IF f(j, 3)[2] < nf THEN flags[f(j, 3)[2]] ELSE Zero,
                            name |-> <<Word4(b, hs + 8 * j + 4), Word4(b, hs + 8 * j)>>]]
BetOk(e, b, blk(_)) ==
  LET w(k) == ToNat(Word4(b, 4 * k))
      n == Len(e.files)
  IN /\ b # Bad /\ Len(b) >= BETHEAD
     /\ \A k \in 0..18 : Fits(Word4(b, 4 * k))
     \* the header says how large the table and its parts are
     /\ w(0) = 12 + Len(b) /\ w(1) = n /\ w(16) = 64 /\ w(14) = 64 * n /\ w(17) = 8 * n
     /\ Len(b) = BETHEAD + 4 * w(18) + (n * w(3) + 7) \div 8 + w(17)
     /\ \A k \in 0..4 : w(4 + k) + w(9 + k) <= w(3) /\ w(9 + k) <= 32
     \* one entry under each file's hash, which repeats the file's block
     /\ \E es \in {TLCEval(BetEntries(b, n))} :
          \A i \in 1..n : \E q \in {TLCEval(Jenkins(e.files[i].name))} :
             LET js == {j \in 0..(n - 1) : es[j].name = q} IN
             \E j \in js : es[j].pos = blk(i).pos /\ es[j].fsize = blk(i).fsize /\ es[j].csize = blk(i).csize /\ es[j].flags = blk(i).flags
FormatOf(e, pl, used) ==
  LET h == dec.head
      n == Len(e.files)
      ix(i) == BlockIx(dec, pl[i].slot)
      blk(i) == dec.tab.block[ix(i)]
  IN \* one slot and one block per file, every entry in use belongs to a file
     /\ \A i \in 1..n : Cardinality(pl[i].slots) = 1
     /\ Cardinality(used) = n /\ h.blockn = n
     /\ \A i, j \in 1..n : i # j => pl[i].slot # pl[j].slot /\ ix(i) # ix(j)
     /\ \A s \in 0..(h.hashn - 1) : s \in used \/ dec.tab.hash[s].ix = FFFFFFFF
     \* parts lie inside the file and apart from each other
     /\ \E all \in {TLCEval(TableSpans \o [i \in 1..n |-> Span(blk(i).pos, Stored(blk(i), Crc(blk(i)), CrcN(blk(i))))])} :
          /\ \A i \in 1..Len(all) : ALeq(AAdd(all[i].at, all[i].n), img.size)
          /\ \A i, j \in 1..Len(all) : i < j => Disjoint(all[i], all[j])
     /\ \A i \in 1..n : EntryOk(e.files[i], dec.tab.hash[pl[i].slot], ix(i), blk(i))
     \* version 4 records the sizes and digests of its tables
     /\ h.ver >= 4 =>
          /\ h.sizes.hash = Addr(16 * h.hashn) /\ h.sizes.block = Addr(16 * h.blockn)
          /\ h.md5.hash \in Digest(h.hashpos, 16 * h.hashn)
          /\ h.blockn > 0 => h.md5.block \in Digest(h.blockpos, 16 * h.blockn)
          /\ h.hetpos # Addr(0) => h.md5.het \in Digest(h.hetpos, ADiff(h.sizes.het, Addr(0))) /\ h.md5.bet \in Digest(h.betpos, ADiff(h.sizes.bet, Addr(0)))
          /\ h.md5.head \in Digest(Addr(0), 192)
     \* extended tables begin with their signatures and version 1
     /\ h.ver >= 3 /\ h.hetpos # Addr(0) =>
          /\ Has(img, h.hetpos, 12) /\ SubSeq(Fetch(img, h.hetpos, 12), 1, 8) = <<72, 69, 84, 26, 1, 0, 0, 0>>
          /\ Has(img, h.betpos, 12) /\ SubSeq(Fetch(img, h.betpos, 12), 1, 8) = <<66, 69, 84, 26, 1, 0, 0, 0>>
          /\ h.ver >= 4 \/ ~e.tcomp => Has(img, h.betpos, BetSize(h)) /\ BetSize(h) >= 12 /\ \E b \in {TLCEval(Extended(h.betpos, BetSize(h), KeyBlock))} : BetOk(e, b, blk)
Format(e) ==
  LET h == dec.head IN
  /\ dec.ok
  /\ h.at = 0 /\ h.ver = e.ver /\ h.shift = e.shift /\ h.hsize = HeaderSizes[h.ver]
  \* the archive is the whole file
  /\ h.size64 = img.size /\ AOfWord(h.size32, 0) = img.size
  /\ TRUE = (\E pl \in {TLCEval(Placed([i \in 1..Len(e.files) |-> e.files[i].name]))} : \E used \in {InUse(dec)} : FormatOf(e, pl, used))
-----------------------------------------------------------------------------
Same(a, b) == a = b
Read(e) == LET cs == Contents(e.name) IN
           IF cs = {} THEN e.res = "missing" ELSE IF Bad \in cs THEN TRUE ELSE e.res = "ok" /\ e.bytes \in cs
Find(e) == LET bs == BlocksOf(dec, e.name) IN
           IF bs = {} THEN e.res = "missing"
           ELSE /\ e.res = "ok"
                /\ \E b \in bs : /\ e.pos = AAdd(dec.tab.block[b].pos, dec.head.at) /\ e.fsize = dec.tab.block[b].fsize
                                 /\ e.csize = dec.tab.block[b].csize /\ e.flags = dec.tab.block[b].flags
Info(e) == /\ e.at = dec.head.at /\ e.ver = dec.head.ver /\ e.sector = dec.head.sector
           /\ e.hashn = dec.head.hashn /\ e.blockn = dec.head.blockn
           /\ e.count = Cardinality({b \in 0..(dec.head.blockn - 1) : Flag(dec.tab.block[b].flags, EXISTS)})
\* listed: the names of the stored list under which a file is found
List(e) == LET cs == Contents(LISTFILE) IN
  IF cs = {} \/ Bad \in cs \/ Cardinality(cs) > 1 THEN TRUE
  ELSE LET plain(ns) == SelectSeq(ns, LAMBDA n : ~NonAsciiEdge(n))
           want == plain(SelectSeq(ParseList(CHOOSE c \in cs : TRUE), LAMBDA n : BlocksOf(dec, n) # {}))
           got == plain(e.names)
       IN e.res = "ok" /\ ToSet(got) = ToSet(want) /\ Len(got) <= Len(want)
ListAll(e) == LET used == {BlockIx(dec, s) : s \in {t \in InUse(dec) : GoodSlot(dec, t)}} IN
              e.res = "ok" /\ e.n = Cardinality(used)

Op(e) ==
  CASE e.ev = "begin" -> img' = NoImage /\ dec' = Nothing
    [] e.ev = "image" -> LET i == [runs |-> e.runs, packs |-> e.packs, digests |-> e.digests, size |-> e.size] IN img' = i /\ dec' = TLCEval(Decode(i))
    [] e.ev = "holds" -> Holds(e) /\ UNCHANGED lvars
    [] e.ev = "format" -> Format(e) /\ UNCHANGED lvars
    [] e.ev = "open" -> (dec.ok => e.res = "ok") /\ UNCHANGED lvars
    [] e.ev = "read" -> TRUE = Read(e) /\ UNCHANGED lvars
    [] e.ev = "find" -> TRUE = Find(e) /\ UNCHANGED lvars
    [] e.ev = "info" -> Info(e) /\ UNCHANGED lvars
    [] e.ev = "list" -> TRUE = List(e) /\ UNCHANGED lvars
    [] e.ev = "listall" -> TRUE = ListAll(e) /\ UNCHANGED lvars
TraceInit == TInit /\ img = NoImage /\ dec = Nothing
TraceNext == \/ TLive /\ Op(TE) /\ TAccept("")
             \/ TLive /\ ~ENABLED Op(TE) /\ TReject /\ UNCHANGED lvars
             \/ TSkip /\ UNCHANGED lvars
             \/ TFinish /\ UNCHANGED lvars
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
