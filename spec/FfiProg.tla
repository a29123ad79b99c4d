------------------------------ MODULE FfiProg ------------------------------
(***************************************************************************)
(* Generates small concurrent C API programs: archives, a sequential set-up *)
(* that opens handles, and two or three threads with a few calls each.      *)
(* Handles: "s<n>" from set-up call n, "t<k>_<n>" from call n of thread k.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, CSV
VARIABLES prog, phase
Pick(s) == s[RandomElement(1..Len(s))]
Chance(k, n) == RandomElement(1..n) <= k

F(n, c, ln, bad) == [name |-> n, len |-> ln, c |-> c, method |-> 0, enc |-> 0, bad |-> bad, special |-> FALSE, crc |-> TRUE, attr |-> "none"]
A(p, c, bad) == [op |-> "fixture", path |-> p, ver |-> RandomElement(1..4), list |-> TRUE, sig |-> FALSE, at |-> FALSE, crc |-> TRUE,
            files |-> <<F(<<97, 46, 116, 120, 116>>, c, 5, FALSE), F(<<98>>, c + 1, Pick(<<0, 3, 600>>), FALSE), F(<<99, 46, 116, 120, 116>>, c + 2, 4, bad)>>]
Names3 == <<<<97, 46, 116, 120, 116>>, <<98>>, <<66>>, <<99, 46, 116, 120, 116>>, <<122>>>>

\* set-up: archives s0 (p0), s1 (p0 or p1), files s2, s3 of s0, s4 of s1
OpenA(p) == [f |-> "openA", path |-> p, np |-> FALSE, utf8 |-> TRUE]
OpenF(h, n) == [f |-> "openF", h |-> h, np |-> FALSE, utf8 |-> TRUE, name |-> n]
Setup(z) == <<OpenA("p0"), OpenA(Pick(<<"p0", "p1">>)), OpenF("s0", Names3[1]), OpenF("s0", Names3[Pick(<<1, 2>>)]), OpenF("s1", Names3[1])>>
\* focus: most programs concern one archive
AH(z) == IF prog.focus THEN Pick(<<"s0", "s0", "s0", "s0", "s1">>) ELSE Pick(<<"s0", "s0", "s1", "t1_0", "t2_0">>)
FH(z) == IF prog.focus THEN Pick(<<"s2", "s2", "s2", "s3", "t1_0", "t2_0", "t1_1">>) ELSE Pick(<<"s2", "s3", "s4", "t1_0", "t2_0", "t1_1">>)
Read(z) == [f |-> "read", h |-> FH(0), np |-> FALSE, n |-> Pick(<<1, 2, 3, 10>>), hasread |-> TRUE]
CloseA(z) == [f |-> "closeA", h |-> AH(0), np |-> FALSE]
Basic(z) ==
  LET k == RandomElement(1..26)
  IN  CASE k <= 4 -> OpenF(AH(0), Pick(Names3))
        [] k <= 8 -> CloseA(0)
        [] k <= 12 -> Read(0)
        [] k = 13 -> [f |-> "closeF", h |-> FH(0), np |-> FALSE]
        [] k = 14 -> [f |-> "seek", h |-> FH(0), np |-> FALSE, hashi |-> FALSE, hi |-> 0, lo |-> Pick(<<0, 1, 3>>), m |-> Pick(<<0, 1>>)]
        [] k = 15 -> [f |-> "size", h |-> FH(0), np |-> FALSE, hashi |-> FALSE]
        [] k = 16 -> [f |-> "has", h |-> AH(0), np |-> FALSE, utf8 |-> TRUE, name |-> Pick(Names3)]
        [] k = 17 -> OpenA(Pick(<<"p0", "p1", "absent">>))
        [] k = 18 -> [f |-> "verifyF", h |-> AH(0), np |-> FALSE, utf8 |-> TRUE, name |-> Pick(Names3), flags |-> 0]
        [] k <= 20 -> [f |-> "verifyA", h |-> AH(0), np |-> FALSE, flags |-> Pick(<<0, 32, 32, 48>>)]
        [] k = 21 -> [f |-> "extract", h |-> AH(0), np |-> FALSE, utf8 |-> TRUE, name |-> Pick(Names3), there |-> TRUE]
        [] k = 22 -> [f |-> "info", h |-> IF Chance(1, 2) THEN AH(0) ELSE FH(0), np |-> FALSE, cls |-> Pick(<<2, 4, 7, 10>>), n |-> 8, hasneed |-> TRUE]
        [] k = 23 -> [f |-> "setErr", np |-> FALSE, val |-> RandomElement(100..900)]
        [] k = 24 -> [f |-> "getErr", np |-> FALSE]
        [] k = 25 -> [f |-> "setLoc", np |-> FALSE, new |-> RandomElement(1000..1100)]
        [] OTHER -> [f |-> "getLoc", np |-> FALSE]
EnumOp(z) == [f |-> "enum", h |-> AH(0), np |-> FALSE, mask |-> Pick(<<<<>>, <<46, 116, 120, 116>>>>), form |-> 1, stop |-> Pick(<<0, 0, 1>>),
              at |-> Pick(<<1, 2>>), nested |-> IF Chance(3, 4) THEN <<Basic(0)>> ELSE <<>>]
Op(z) == IF Chance(1, 9) THEN EnumOp(0) ELSE Basic(0)
Ops(n) == CASE n = 1 -> <<Op(0)>> [] n = 2 -> <<Op(0), Op(0)>> [] OTHER -> <<Op(0), Op(0), Op(0)>>

Init == prog = [focus |-> FALSE] /\ phase = 0
Step1 == /\ phase = 0 /\ phase' = 1
         /\ prog' = [focus |-> Chance(2, 3), fixtures |-> <<A("p0", 1, Chance(1, 4)), A("p1", 11, FALSE)>>, setup |-> Setup(0), threads |-> <<>>]
Step2 == /\ phase \in 1..2 /\ phase' = phase + 1
         /\ \E o \in {Ops(Pick(<<1, 2, 2, 3>>))} : prog' = [prog EXCEPT !.threads = Append(@, o)]
Step3 == /\ phase = 3 /\ phase' = 4
         /\ \E o \in {IF Chance(1, 3) THEN <<Ops(Pick(<<1, 1, 2>>))>> ELSE <<>>} : prog' = [prog EXCEPT !.threads = @ \o o]
GSpec == Init /\ [][Step1 \/ Step2 \/ Step3]_<<prog, phase>>
Emit == phase = 4 => CSVWrite("%1$s", <<ToJson(prog)>>, IOEnv.OUT)
=============================================================================
