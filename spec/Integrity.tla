----------------------------- MODULE Integrity -----------------------------
(***************************************************************************)
(* An archive file as a byte range carrying files and structures, damage to *)
(* it, and what reads and integrity reports may answer afterwards.          *)
(*   files : sequence of [lo, hi, dig, sums]  stored extent [lo,hi), digest *)
(*           of the content, checksum of each of its sectors                *)
(*   regs  : structures of a version 4 archive: [name |-> <<lo, hi>>],      *)
(*           table extents relative to the file start, plus their digests   *)
(*   sig   : extent of the signature file, or <<0, 0>>                      *)
(*   arch  : extent of the archive within the file                          *)
(*   strong: extent of a strong signature's mark and number behind it       *)
(*   dmg   : byte ranges <<lo, hi>> that differ from what was built         *)
(*   len   : current length of the file, total: its length when built       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES files, regs, sig, arch, dmg, len, signed, total, strong, zeronum
ivars == <<files, regs, sig, arch, dmg, len, signed, total, strong, zeronum>>

Hits(d, r) == d[1] < r[2] /\ r[1] < d[2]
Touched(r) == (\E d \in dmg : Hits(d, r)) \/ (r[2] > len /\ r[1] < r[2])
Inside(d, r) == r[1] <= d[1] /\ d[2] <= r[2]

IInit == files = <<>> /\ regs = [x \in {} |-> <<0, 0>>] /\ sig = <<0, 0>> /\ arch = <<0, 0>> /\ dmg = {} /\ len = 0 /\ signed = FALSE /\ total = 0 /\ strong = <<0, 0>> /\ zeronum = FALSE
Built(e) == /\ files' = e.files /\ regs' = e.regs /\ sig' = e.sig /\ arch' = e.arch /\ dmg' = {} /\ len' = e.len /\ signed' = e.signed /\ total' = e.len /\ strong' = e.strong /\ zeronum' = e.zeronum
Damage(ranges, newlen) == /\ dmg' = ranges /\ len' = newlen /\ UNCHANGED <<files, regs, sig, arch, signed, total, strong, zeronum>>
Restore == dmg' = {} /\ len' = total /\ UNCHANGED <<files, regs, sig, arch, signed, total, strong, zeronum>>

(* --- C05: reads of checksummed files under damage to file data --- *)
Changed == dmg # {} \/ len < total
\* everything outside the files' extents (which lie next to each other) is as built
OnlyFileDamage == \A d \in dmg : Inside(d, <<files[1].lo, files[Len(files)].hi>>)
Intact(k) == ~Touched(<<files[k].lo, files[k].hi>>)
\* e.sums: sector checksums of what was returned (a 32-bit checksum cannot tell contents with equal checksums apart)
Truthful(k, e) == e.ok => \/ e.dig = files[k].dig
                          \/ e.sums = files[k].sums /\ e.n = files[k].n
ReadOk(k, e) == /\ Truthful(k, e)
                /\ Intact(k) => e.ok /\ e.dig = files[k].dig

(* --- C06: version 4 digests --- *)
Tables == {"hash", "block", "het", "bet"}
Md5Of(x) == regs[x].md5
Ext(x) == regs[x].ext
Header == regs.header.ext
Digests == regs.digests.ext
HeaderDamage == {d \in dmg : Hits(d, Header)}
\* damage to the header beyond the digests changes which bytes the tables are
HeaderFieldsIntact == \A d \in HeaderDamage : Inside(d, Digests)
ReportOk(e) == /\ e.header = ~Touched(Header)
               /\ HeaderFieldsIntact =>
                     \A x \in Tables : e[x] = ~(Touched(Ext(x)) \/ Touched(Md5Of(x)))

(* --- C06: weak signature --- *)
SigNumber == <<sig[1] + 8, sig[2]>>            \* the 64 bytes of the number itself
Covered(d) == Hits(d, arch)
Outside == {d \in dmg : Covered(d) /\ ~Inside(d, sig)}
WeakOk(st) ==
  IF sig[1] = sig[2] THEN st = "None" \/ (st = "err" /\ Changed)
  ELSE IF ~signed THEN st # "WeakValid"
  ELSE IF ~Changed THEN st = "WeakValid"
  ELSE IF len < arch[2] THEN st # "WeakValid"                              \* cut off
  ELSE IF \E d \in dmg : Hits(d, SigNumber) THEN st # "WeakValid"          \* the number itself changed
  ELSE IF Outside # {} THEN st # "WeakValid"                               \* a covered byte changed
  ELSE IF \E d \in dmg : Hits(d, sig) THEN st \in {"WeakValid", "WeakInvalid", "None"}   \* the unused head of the signature file
  ELSE st = "WeakValid"                                                    \* only bytes outside the archive changed

(* --- C06: strong signature: found exactly behind the archive when all of its bytes are there; the numbers used here never verify --- *)
HeaderAt == <<arch[1], arch[1] + 208>>
StrongWhole == strong[1] < strong[2] /\ strong[2] <= len
StrongMark == <<strong[1], strong[1] + 4>>
StrongNumber == <<strong[1] + 4, strong[2]>>
SignatureOk(st) ==
  IF st = "StrongValid" THEN FALSE
  ELSE IF StrongWhole /\ Touched(HeaderAt) THEN st = "StrongInvalid" \/ (st # "WeakValid")      \* the archive's end may have moved
  ELSE IF StrongWhole /\ ~Touched(StrongMark) THEN
         st = "StrongInvalid" \/ ((zeronum \/ Touched(StrongNumber)) /\ WeakOk(st))          \* a number of zeroes is no signature
  ELSE WeakOk(st)

(* --- C06: the digest itself: a byte matters exactly when it is in the archive and not in the signature --- *)
DigestOk(e) == e.same = ~(\E p \in {e.flips[k] : k \in 1..Len(e.flips)} : e.begin <= p /\ p < e.stop /\ ~(e.xlo <= p /\ p < e.xhi))
=============================================================================
