------------------------------- MODULE Layout -------------------------------
(***************************************************************************)
(* The on-disk format: what the bytes of an archive mean.  An image is a    *)
(* list of byte runs (the rest of the file is a hole); Decode finds the     *)
(* header, decrypts the tables and gives the meaning of every table entry,  *)
(* Content the bytes of a file.  Nothing here depends on how or in which    *)
(* order a writer laid the parts out.                                       *)
(*                                                                           *)
(* Compressed data is the one thing not computed here: packs lists pairs    *)
(* [z, p] of a compressed form (with its method byte) and what an           *)
(* independent decoder makes of it.                                         *)
(***************************************************************************)
EXTENDS MpqCrypt, FiniteSets

\* --- addresses: <<q, r>> stands for q * 2^20 + r, 0 <= r < 2^20 ---
MB == 1048576
Addr(n) == <<n \div MB, n % MB>>
APlus(a, b) == <<a[1] + b[1] + (a[2] + b[2]) \div MB, (a[2] + b[2]) % MB>>
AAdd(a, n) == APlus(a, Addr(n))
ALess(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
ALeq(a, b) == a = b \/ ALess(a, b)
\* distance of two addresses in the same run
ADiff(a, b) == (a[1] - b[1]) * MB + (a[2] - b[2])
\* a word as an address, with 16 more bits above it
AOfWord(w, hi) == <<hi * 4096 + w[1] \div 16, (w[1] % 16) * 65536 + w[2]>>
NoBytes == <<>>

\* --- bytes of an image: runs [at, b] in ascending order ---
RunOf(img, a, n) == {i \in 1..Len(img.runs) : LET s == img.runs[i] IN
                       ALeq(s.at, a) /\ a[1] - s.at[1] < 1024 /\ ADiff(a, s.at) + n <= Len(s.b)}
Has(img, a, n) == RunOf(img, a, n) # {}
Fetch(img, a, n) == LET s == img.runs[CHOOSE i \in RunOf(img, a, n) : TRUE]
                        d == ADiff(a, s.at)
                    IN SubSeq(s.b, d + 1, d + n)
Bytes2(b, i) == b[i + 1] + 256 * b[i + 2]                      \* i: offset from 0
Word4(b, i) == WordAt(b, i + 1)
Addr8(b, i) == AOfWord(Word4(b, i), Bytes2(b, i + 4))          \* the top 16 bits are not used

\* --- header ---
MPQ == <<77, 80, 81, 26>>
USER == <<77, 80, 81, 27>>
HeaderSizes == <<32, 44, 68, 208>>
\* the archive starts at the first 512-byte boundary that shows a header, or where user data there points
RECURSIVE Start(_, _)
Start(img, k) ==
  LET a == Addr(512 * k) IN
  IF ~Has(img, a, 4) THEN -1
  ELSE LET s == Fetch(img, a, 4) IN
       IF s = MPQ THEN 512 * k
       ELSE IF s = USER /\ Has(img, a, 16) THEN
         LET to == Word4(Fetch(img, a, 16), 8)
             at == 512 * k + ToNat(to)
         IN IF Fits(to) /\ to[1] < 16 /\ Has(img, Addr(at), 4) /\ Fetch(img, Addr(at), 4) = MPQ THEN at ELSE Start(img, k + 1)
       ELSE Start(img, k + 1)

Flag(w, f) == WAnd(w, f) # Zero
IMPLODE == <<0, 256>>
COMPRESS == <<0, 512>>
ENCRYPTED == <<1, 0>>
FIXKEY == <<2, 0>>
SINGLE == <<256, 0>>
DELETED == <<512, 0>>
SECTORCRC == <<1024, 0>>
EXISTS == <<32768, 0>>
FFFFFFFF == <<65535, 65535>>
FFFFFFFE == <<65535, 65534>>

KeyHash == HashString(<<40, 104, 97, 115, 104, 32, 116, 97, 98, 108, 101, 41>>, FILE_KEY)            \* "(hash table)"
KeyBlock == HashString(<<40, 98, 108, 111, 99, 107, 32, 116, 97, 98, 108, 101, 41>>, FILE_KEY)       \* "(block table)"

Header(img) ==
  LET o == Start(img, 0)
      b == Fetch(img, Addr(o), 32)
      ver == Bytes2(b, 12) + 1
      x == IF ver >= 2 THEN Fetch(img, Addr(o), 44) ELSE NoBytes
      y == IF ver >= 3 THEN Fetch(img, Addr(o), 68) ELSE NoBytes
      z == IF ver >= 4 THEN Fetch(img, Addr(o), 208) ELSE NoBytes
  IN [at |-> o, ver |-> ver, hsize |-> ToNat(Word4(b, 4)), size32 |-> Word4(b, 8), shift |-> Bytes2(b, 14), sector |-> 512 * 2^Bytes2(b, 14),
      hashpos |-> AOfWord(Word4(b, 16), IF ver >= 2 THEN Bytes2(x, 40) ELSE 0),
      blockpos |-> AOfWord(Word4(b, 20), IF ver >= 2 THEN Bytes2(x, 42) ELSE 0),
      hashn |-> ToNat(Word4(b, 24)), blockn |-> ToNat(Word4(b, 28)),
      hipos |-> IF ver >= 2 THEN Addr8(x, 32) ELSE Addr(0),
      size64 |-> IF ver >= 3 THEN Addr8(y, 44) ELSE AOfWord(Word4(b, 8), 0),
      betpos |-> IF ver >= 3 THEN Addr8(y, 52) ELSE Addr(0),
      hetpos |-> IF ver >= 3 THEN Addr8(y, 60) ELSE Addr(0),
      sizes |-> IF ver >= 4 THEN [hash |-> Addr8(z, 68), block |-> Addr8(z, 76), hi |-> Addr8(z, 84), het |-> Addr8(z, 92), bet |-> Addr8(z, 100)] ELSE <<>>,
      md5 |-> IF ver >= 4 THEN [block |-> SubSeq(z, 113, 128), hash |-> SubSeq(z, 129, 144), hi |-> SubSeq(z, 145, 160),
                                bet |-> SubSeq(z, 161, 176), het |-> SubSeq(z, 177, 192), head |-> SubSeq(z, 193, 208)] ELSE <<>>]
Sane(img) == LET o == Start(img, 0) IN
  /\ o >= 0 /\ Has(img, Addr(o), 32)
  /\ Bytes2(Fetch(img, Addr(o), 32), 12) <= 3
  /\ Has(img, Addr(o), HeaderSizes[Bytes2(Fetch(img, Addr(o), 32), 12) + 1])

\* --- tables ---
Tables(img, h) ==
  LET hw == Decrypt(WordsOf(Fetch(img, AAdd(h.hashpos, h.at), 16 * h.hashn)), KeyHash)
      bw == IF h.blockn = 0 THEN <<>> ELSE Decrypt(WordsOf(Fetch(img, AAdd(h.blockpos, h.at), 16 * h.blockn)), KeyBlock)
      hi == IF h.hipos = Addr(0) \/ h.blockn = 0 THEN NoBytes ELSE Fetch(img, AAdd(h.hipos, h.at), 2 * h.blockn)
  IN [hash |-> [i \in 0..(h.hashn - 1) |-> [a |-> hw[4 * i + 1], b |-> hw[4 * i + 2], loc |-> hw[4 * i + 3][2], plat |-> hw[4 * i + 3][1], ix |-> hw[4 * i + 4]]],
      block |-> [i \in 0..(h.blockn - 1) |->
                   [low |-> bw[4 * i + 1], pos |-> AOfWord(bw[4 * i + 1], IF hi = NoBytes THEN 0 ELSE Bytes2(hi, 2 * i)),
                    csize |-> bw[4 * i + 2], fsize |-> bw[4 * i + 3], flags |-> bw[4 * i + 4]]]]
Readable(img, h) == /\ h.hashn >= 1 /\ (\E k \in 0..20 : h.hashn = 2^k) /\ Has(img, AAdd(h.hashpos, h.at), 16 * h.hashn)
                    /\ (h.blockn = 0 \/ Has(img, AAdd(h.blockpos, h.at), 16 * h.blockn))
                    /\ (h.hipos = Addr(0) \/ h.blockn = 0 \/ Has(img, AAdd(h.hipos, h.at), 2 * h.blockn))
Nothing == [ok |-> FALSE, head |-> <<>>, tab |-> <<>>]
Decode(img) == IF ~Sane(img) THEN Nothing
               ELSE LET h == Header(img) IN
                    IF ~Readable(img, h) THEN Nothing ELSE [ok |-> TRUE, head |-> h, tab |-> Tables(img, h)]

\* --- lookup: the slots from the name's home to the first never-used one ---
Home(d, name) == LET w == HashString(name, TABLE_OFFSET) IN IF d.head.hashn <= 65536 THEN w[2] % d.head.hashn ELSE 0
RECURSIVE Chain(_, _, _)
Chain(d, i, n) == IF n = 0 \/ d.tab.hash[i].ix = FFFFFFFF THEN <<>>
                  ELSE <<i>> \o Chain(d, (i + 1) % d.head.hashn, n - 1)
Slots(d, name) == LET a == HashString(name, NAME_A)
                      b == HashString(name, NAME_B)
                      c == Chain(d, Home(d, name), d.head.hashn)
                  IN {c[k] : k \in {j \in 1..Len(c) : LET e == d.tab.hash[c[j]] IN e.a = a /\ e.b = b /\ e.ix # FFFFFFFE}}
BlockIx(d, slot) == ToNat(d.tab.hash[slot].ix)
GoodSlot(d, s) == Fits(d.tab.hash[s].ix) /\ BlockIx(d, s) < d.head.blockn /\ Flag(d.tab.block[BlockIx(d, s)].flags, EXISTS)
BlocksOf(d, name) == {BlockIx(d, s) : s \in {t \in Slots(d, name) : GoodSlot(d, t)}}

\* --- content ---
RECURSIVE BaseFrom(_, _)
BaseFrom(n, i) == IF i = 0 THEN n ELSE IF n[i] = 92 \/ n[i] = 47 THEN SubSeq(n, i + 1, Len(n)) ELSE BaseFrom(n, i - 1)
Base(n) == BaseFrom(n, Len(n))
FileKey(blk, name) ==
  IF ~Flag(blk.flags, ENCRYPTED) THEN Zero
  ELSE LET k == HashString(Base(name), FILE_KEY) IN IF Flag(blk.flags, FIXKEY) THEN WXor(WAdd(k, blk.low), blk.fsize) ELSE k
BytesOfWord(w) == <<w[2] % 256, w[2] \div 256, w[1] % 256, w[1] \div 256>>
\* whole words only; the bytes after the last one are stored as they are
Plain(b, key) == IF key = Zero THEN b
                 ELSE LET n == Len(b) \div 4
                          ws == Decrypt(WordsOf(b), key)
                          by == TLCEval([i \in 1..n |-> BytesOfWord(ws[i])])
                      IN [i \in 1..(4 * n) |-> by[(i - 1) \div 4 + 1][((i - 1) % 4) + 1]] \o SubSeq(b, 4 * n + 1, Len(b))
Bad == <<-1>>
Unpack(img, blk, b, n) == LET how == IF Flag(blk.flags, IMPLODE) THEN 1 ELSE 0
                              ps == {i \in 1..Len(img.packs) : img.packs[i].how = how /\ img.packs[i].z = b /\ Len(img.packs[i].p) = n}
                          IN IF ps = {} THEN Bad ELSE img.packs[CHOOSE i \in ps : TRUE].p
Packed(blk) == Flag(blk.flags, COMPRESS) \/ Flag(blk.flags, IMPLODE)
RECURSIVE Glue(_)
Glue(ss) == IF ss = <<>> THEN <<>> ELSE IF Head(ss) = Bad THEN Bad
            ELSE LET r == Glue(Tail(ss)) IN IF r = Bad THEN Bad ELSE Head(ss) \o r
Least(a, b) == IF a < b THEN a ELSE b
Content(img, d, ix, name) ==
  LET blk == d.tab.block[ix]
      key == FileKey(blk, name)
      at == AAdd(blk.pos, d.head.at)
      size == ToNat(blk.fsize)
      csize == ToNat(blk.csize)
      S == d.head.sector
      n == (size + S - 1) \div S
      part(i) == Least(S, size - S * (i - 1))
      K(i) == IF key = Zero THEN Zero ELSE WAdd(key, FromNat(i))
  IN CASE ~Fits(blk.fsize) \/ ~Fits(blk.csize) -> Bad
       [] size = 0 -> <<>>
       [] Flag(blk.flags, SINGLE) ->
            (IF ~Has(img, at, csize) THEN Bad
             ELSE LET b == TLCEval(Plain(Fetch(img, at, csize), key)) IN
                  IF Packed(blk) /\ csize < size THEN Unpack(img, blk, b, size) ELSE IF csize = size THEN b ELSE Bad)
       [] ~Flag(blk.flags, SINGLE) /\ ~Packed(blk) ->
            (IF csize # size \/ ~Has(img, at, size) THEN Bad
             ELSE Glue([i \in 1..n |-> Plain(Fetch(img, AAdd(at, S * (i - 1)), part(i)), K(i - 1))]))
       [] OTHER ->
            (IF ~Has(img, at, 4 * (n + 1)) THEN Bad
             ELSE LET ow == WordsOf(Fetch(img, at, 4 * (n + 1)))
                      off == TLCEval(IF key = Zero THEN ow ELSE Decrypt(ow, WSub(key, FromNat(1))))
                      good(i) == Fits(off[i]) /\ Fits(off[i + 1]) /\ ToNat(off[i]) <= ToNat(off[i + 1])
                                 /\ ToNat(off[i]) >= 4 * (n + 1) /\ Has(img, AAdd(at, ToNat(off[i])), ToNat(off[i + 1]) - ToNat(off[i]))
                      sect(i) == LET z == ToNat(off[i + 1]) - ToNat(off[i])
                                     b == TLCEval(Plain(Fetch(img, AAdd(at, ToNat(off[i])), z), K(i - 1)))
                                 IN IF z < part(i) THEN Unpack(img, blk, b, part(i)) ELSE IF z = part(i) THEN b ELSE Bad
                  IN IF \A i \in 1..n : good(i) THEN Glue([i \in 1..n |-> sect(i)]) ELSE Bad)

\* the offset table of a file kept as compressed sectors, decrypted
Offsets(img, d, ix, name) ==
  LET blk == d.tab.block[ix]
      key == FileKey(blk, name)
      n == (ToNat(blk.fsize) + d.head.sector - 1) \div d.head.sector
      ow == WordsOf(Fetch(img, AAdd(blk.pos, d.head.at), 4 * (n + 1)))
  IN IF key = Zero THEN ow ELSE Decrypt(ow, WSub(key, FromNat(1)))

\* --- Adler-32 ---
AdlerStep(acc, c) == LET a == (acc[1] + c) % 65521 IN <<a, (acc[2] + a) % 65521>>
Adler(b) == LET r == FoldLeft(AdlerStep, <<1, 0>>, b) IN <<r[2], r[1]>>
=============================================================================
