------------------------------ MODULE BuildGen ------------------------------
(***************************************************************************)
(* Build requests for BuildTrace: archive options, sources, the state of    *)
(* the destination, and requests that have to fail.  The harness runs each  *)
(* once to learn its file operations, then once per operation and fault.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, CSV
VARIABLES hist
Pick(s) == s[RandomElement(1..Len(s))]
Chance(k, n) == RandomElement(1..n) <= k
File(k) == [len |-> Pick(<<0, 1, 100, 600, 3000, 9000>>), kind |-> Pick(<<"text", "rand", "zero", "mix">>), seed |-> RandomElement(0..9999),
            method |-> Pick(<<0, 2, 16, 32>>), enc |-> Pick(<<0, 0, 1, 2>>), src |-> Pick(<<"mem", "disk", "disk">>)]
Req(z) == [ver |-> RandomElement(1..4), bs |-> Pick(<<0, 1, 3>>), crc |-> Chance(1, 2), tcomp |-> Chance(1, 3),
           list |-> Pick(<<"gen", "gen", "none", "ext">>), dest |-> Pick(<<"absent", "old", "old", "old", "text", "self", "longer", "dir", "ro", "ro", "empty">>),
           rel |-> Chance(1, 4), nb |-> RandomElement(0..3),
           files |-> [k \in 1..RandomElement(0..3) |-> File(k)],
           wrong |-> Pick(<<"", "", "", "", "", "dup", "gone", "method", "extgone", "srcdir", "noparent">>)]
GInit == hist = <<>>
GNext == hist = <<>> /\ \E r \in {Req(0)} : hist' = <<r>>
GSpec == GInit /\ [][GNext]_hist
Emit == hist # <<>> => CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.OUT)
=============================================================================
