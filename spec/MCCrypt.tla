------------------------------ MODULE MCCrypt ------------------------------
(***************************************************************************)
(* Design check of the cipher and the hash: published vectors; decryption   *)
(* inverts encryption for every key and block of the bounded sets below;    *)
(* the hash of a name depends only on its normal form.                      *)
(***************************************************************************)
EXTENDS MpqCrypt
VARIABLES key, block
Halves == {0, 1, 32767, 32768, 65535, 43981}
Keys == {<<h, l>> : h \in Halves, l \in (Halves \union 2..63)}
Words == {<<0, 0>>, <<65535, 65535>>, <<32768, 1>>, <<4660, 22136>>}
Blocks == UNION {[1..n -> Words] : n \in 0..3}
Init == key \in Keys /\ block \in Blocks
Next == UNCHANGED <<key, block>>
RoundTrip == Decrypt(Encrypt(block, key), key) = block /\ Encrypt(Decrypt(block, key), key) = block
LengthKept == Len(Encrypt(block, key)) = Len(block)
\* equal prefixes encrypt to equal prefixes, so sectors can be decrypted on their own
Prefix == block # <<>> => LET p == SubSeq(block, 1, Len(block) - 1)
                         IN  Encrypt(p, key) = SubSeq(Encrypt(block, key), 1, Len(p))
ASSUME HashString(LISTFILE, TABLE_OFFSET) = <<24381, 59481>>                            \* 5F3DE859
ASSUME HashString(<<40,104,97,115,104,32,116,97,98,108,101,41>>, FILE_KEY) = <<50095, 14192>>      \* "(hash table)" C3AF3770
ASSUME HashString(<<40,98,108,111,99,107,32,116,97,98,108,101,41>>, FILE_KEY) = <<60547, 45987>>   \* "(block table)" EC83B3A3
Chars == {97, 65, 47, 92, 48, 200}
ASSUME \A n \in UNION {[1..k -> Chars] : k \in 0..3}, t \in 0..3 : HashString(n, t) = HashString(Norm(n), t)
=============================================================================
