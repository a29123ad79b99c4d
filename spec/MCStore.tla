------------------------------- MODULE MCStore ------------------------------
(***************************************************************************)
(* Design check for how a file is kept.  A content of up to MaxLen units is *)
(* cut into sectors of SS units; a sector (or the whole file, as a single   *)
(* unit) that is constant and long enough has a packed form of two units.   *)
(* Encryption marks a unit with its key.  A writer lays the file out at an  *)
(* address of an archive that itself starts at base; a reader that only     *)
(* has the entry and the cells gets the content back.                       *)
(*                                                                          *)
(* File keys: name, or name + position - base and size mixed in ("fix").    *)
(* The offset table uses key - 1, sector i key + i.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS SS, MaxLen, Variant
VARIABLES content, how, base, at, cells, entry
vars == <<content, how, base, at, cells, entry>>
Units == {1, 2}
Min(a, b) == IF a < b THEN a ELSE b
Contents == UNION {[1..n -> Units] : n \in 0..MaxLen}
\* how: packing asked for, single unit asked for, key kind, checksums
Hows == [pack : BOOLEAN, unit : BOOLEAN, enc : {"no", "name", "fix"}, crc : BOOLEAN]

PACK == 9
Pack(c) == <<PACK, Len(c) * 10 + c[1]>>
Packs(c) == Len(c) > 2 /\ \A i \in 1..Len(c) : c[i] = c[1]
Unpack(z) == IF Len(z) = 2 /\ z[1] = PACK THEN [i \in 1..(z[2] \div 10) |-> z[2] % 10] ELSE <<-1>>
NONE == -99
Enc(c, k) == IF k = NONE THEN c ELSE [i \in 1..Len(c) |-> 1000 * (k + 10) + c[i]]
Dec(c, k) == IF k = NONE THEN c ELSE [i \in 1..Len(c) |-> IF c[i] \div 1000 = k + 10 THEN c[i] % 1000 ELSE -1]
Key(h, pos, size) == CASE h.enc = "no" -> NONE [] h.enc = "name" -> 20 [] OTHER -> 20 + 7 * pos + size
Shift(k, d) == IF k = NONE THEN NONE ELSE k + d
Nsec(n) == (n + SS - 1) \div SS
Sector(c, i) == SubSeq(c, SS * (i - 1) + 1, Min(SS * i, Len(c)))
RECURSIVE Join(_)
Join(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Join(Tail(ss))
RECURSIVE Ends(_, _)
Ends(ss, o) == IF ss = <<>> THEN <<o>> ELSE <<o>> \o Ends(Tail(ss), o + Len(Head(ss)))
Sum(c) == 500 + Len(c) + 10 * (IF c = <<>> THEN 0 ELSE c[1]) + 100 * (IF c = <<>> THEN 0 ELSE c[Len(c)])

\* --- the writer: the cells and the entry [pos, csize, size, packed, unit, enc, crc] ---
Written(c, h, b, a) ==
  LET pos == IF Variant = "absolute" THEN a ELSE a - b
      key == Key(h, pos, Len(c))
      n == Nsec(Len(c))
      packed1 == h.pack /\ Packs(c)
      one == Enc(IF packed1 THEN Pack(c) ELSE c, key)
      part(i) == IF h.pack /\ Packs(Sector(c, i)) THEN Pack(Sector(c, i)) ELSE Sector(c, i)
      body == [i \in 1..n |-> Enc(part(i), Shift(key, i - 1))]
      plain == [i \in 1..n |-> Enc(Sector(c, i), Shift(key, i - 1))]
      sums == IF h.crc THEN [i \in 1..n |-> Sum(Sector(c, i))] ELSE <<>>
      offs == Ends(body, n + 1 + Len(sums))
      E(cs, pk, un) == [pos |-> a - b, csize |-> cs, size |-> Len(c), packed |-> pk, unit |-> un, enc |-> h.enc, crc |-> h.crc]
  IN IF h.unit THEN [cells |-> one \o (IF h.crc THEN <<Sum(c)>> ELSE <<>>), entry |-> E(Len(one), packed1, TRUE)]
     ELSE IF ~h.pack THEN [cells |-> Join(plain), entry |-> E(Len(c), FALSE, FALSE)]
     ELSE [cells |-> Enc(offs, Shift(key, -1)) \o sums \o Join(body), entry |-> E(offs[n + 1] - Len(sums), TRUE, FALSE)]

\* --- the reader: absolute address of the entry, then its own arithmetic ---
Cut(a, n) == SubSeq(cells, a + 1, a + n)                   \* cells of the file, from its start
Deliver ==
  LET e == entry
      pos == IF Variant = "readabs" THEN base + e.pos ELSE e.pos
      key == Key([enc |-> e.enc], IF Variant = "absolute" THEN base + e.pos ELSE pos, e.size)
      n == IF Variant = "round" THEN e.size \div SS + 1 ELSE Nsec(e.size)
      want(i) == IF Variant = "lastfull" THEN SS ELSE Min(SS, e.size - SS * (i - 1))
      first == IF Variant = "keyone" THEN 1 ELSE 0
      offs == Dec(Cut(0, n + 1), Shift(key, -1))
      got(i) == Dec(Cut(offs[i], offs[i + 1] - offs[i]), Shift(key, i - 1 + first))
      open(i) == IF Variant = "flagonly" \/ Len(got(i)) < want(i) THEN Unpack(got(i)) ELSE got(i)
  IN CASE e.size = 0 -> <<>>
       [] e.unit -> LET b == Dec(Cut(0, e.csize), key) IN IF e.packed THEN Unpack(b) ELSE b
       [] ~e.packed -> Join([i \in 1..Nsec(e.size) |-> Dec(Cut(SS * (i - 1), Min(SS, e.size - SS * (i - 1))),
                                                           Shift(key, IF Variant = "onekey" THEN 0 ELSE i - 1))])
       [] OTHER -> IF Len(offs) = n + 1 /\ \A i \in 1..(n + 1) : offs[i] >= n + 1 THEN Join([i \in 1..n |-> open(i)]) ELSE <<-1>>
Init == /\ content \in Contents /\ how \in Hows /\ base \in {0, 2} /\ at \in {3, 4}
        /\ LET w == Written(content, how, base, at) IN cells = w.cells /\ entry = w.entry
Next == FALSE /\ UNCHANGED vars
RoundTrip == Deliver = content
\* the entry's size covers the data: everything but the checksums
Accounted == entry.csize + (IF how.crc /\ (how.unit \/ how.pack) THEN (IF how.unit THEN 1 ELSE Nsec(Len(content))) ELSE 0) = Len(cells)
=============================================================================
