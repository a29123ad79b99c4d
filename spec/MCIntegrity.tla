---------------------------- MODULE MCIntegrity ----------------------------
(***************************************************************************)
(* Design check for checksummed reads and for the signature digest.         *)
(*                                                                          *)
(* A file is NS sectors.  Each is stored compressed or as is, with its      *)
(* checksum (of the content; collisions are abstracted away: a damaged      *)
(* checksum is zero, all ones or matches nothing).  Damage hits any cells.  *)
(* The reader delivers the contents or an error.                            *)
(*                                                                          *)
(* The signature digest: bytes begin..stop-1 of the file in chunks of       *)
(* Chunk, signature bytes read as zero.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS NS, Contents, Variant, NB, Chunk
VARIABLES orig, form, cell, sum, cut, bytes, flip, xlo, xhi, stop, mode
vars == <<orig, form, cell, sum, cut, bytes, flip, xlo, xhi, stop, mode>>

BAD == 99                       \* does not decode
Sum(v) == 10 + v
ZEROS == 0
ONES == 1
GARBAGE == 2

Init == /\ mode \in {"file", "sign"}
        /\ IF mode = "file"
           THEN /\ orig \in [1..NS -> Contents] /\ form \in [1..NS -> {"raw", "comp"}]
                /\ cell = orig /\ sum = [k \in 1..NS |-> Sum(orig[k])] /\ cut = NS
                /\ bytes = <<>> /\ flip = {} /\ xlo = 0 /\ xhi = 0 /\ stop = 0
           ELSE /\ orig = <<>> /\ form = <<>> /\ cell = <<>> /\ sum = <<>> /\ cut = 0
                /\ bytes = [k \in 1..NB |-> 1] /\ flip = {} /\ xlo \in 1..NB /\ xhi \in xlo..(NB + 1) /\ stop \in 1..(NB + 1)
HitData == /\ mode = "file" /\ \E k \in 1..NS, v \in Contents \union {BAD} : v # cell[k] /\ (v = BAD => form[k] = "comp") /\ cell' = [cell EXCEPT ![k] = v]
           /\ UNCHANGED <<orig, form, sum, cut, bytes, flip, xlo, xhi, stop, mode>>
HitSum == /\ mode = "file" /\ \E k \in 1..NS, v \in {ZEROS, ONES, GARBAGE} : v # sum[k] /\ sum' = [sum EXCEPT ![k] = v]
          /\ UNCHANGED <<orig, form, cell, cut, bytes, flip, xlo, xhi, stop, mode>>
Truncate == /\ mode = "file" /\ cut > 0 /\ cut' = cut - 1 /\ UNCHANGED <<orig, form, cell, sum, bytes, flip, xlo, xhi, stop, mode>>
Flip == /\ mode = "sign" /\ \E p \in 1..NB : p \notin flip /\ flip' = flip \union {p} /\ bytes' = [bytes EXCEPT ![p] = 2]
        /\ UNCHANGED <<orig, form, cell, sum, cut, xlo, xhi, stop, mode>>
Next == HitData \/ HitSum \/ Truncate \/ Flip

\* the reader
Checked(k) == CASE Variant = "skipzero" -> sum[k] # ZEROS
                [] Variant = "skipones" -> sum[k] # ONES
                [] Variant = "skipraw" -> form[k] = "comp"
                [] Variant = "skiplast" -> k < NS
                [] OTHER -> TRUE
SectorOk(k) == k <= cut /\ cell[k] # BAD /\ (Checked(k) => sum[k] = Sum(cell[k]))
Padded(k) == Variant = "padshort" /\ k > cut
Result == IF \A k \in 1..NS : SectorOk(k) \/ Padded(k) THEN [k \in 1..NS |-> IF k <= cut THEN cell[k] ELSE 7] ELSE <<>>
ReadsTruthfully == mode = "file" => Result = orig \/ Result = <<>>
UndamagedReads == mode = "file" /\ cell = orig /\ cut = NS /\ (\A k \in 1..NS : sum[k] = Sum(orig[k])) => Result = orig

\* the digest
Min(a, b) == IF a < b THEN a ELSE b
InSig(p) == xlo <= p /\ p < xhi
ChunkOf(p) == (p - 1) \div Chunk
Zeroed(p) == CASE Variant = "wholechunk" -> InSig(p) /\ ChunkOf(xlo) = ChunkOf(xhi - 1)     \* overlap across chunks missed
               [] Variant = "firstchunk" -> InSig(p) /\ ChunkOf(p) = ChunkOf(xlo)
               [] Variant = "toend" -> p >= xlo /\ ChunkOf(p) = ChunkOf(xlo)                 \* clears to the end of the chunk
               [] OTHER -> InSig(p)
Hashed(b) == [p \in 1..(stop - 1) |-> IF Zeroed(p) THEN 0 ELSE b[p]]
DigestDepends == mode = "sign" =>
   ((Hashed(bytes) = Hashed([k \in 1..NB |-> 1])) <=> ~\E p \in flip : p < stop /\ ~InSig(p))
=============================================================================
