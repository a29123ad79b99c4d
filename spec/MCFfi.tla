------------------------------- MODULE MCFfi -------------------------------
(***************************************************************************)
(* Exhaustive check of StormFfi on a small instance: two threads, handles   *)
(* 1..MaxH, one archive with three files (one empty, one damaged), one      *)
(* missing archive.                                                         *)
(***************************************************************************)
EXTENDS StormFfi, TLC
CONSTANT MaxH
VARIABLE S

F(n, ln, bd) == [name |-> n, len |-> ln, c |-> ln, special |-> FALSE, bad |-> bd, crc |-> TRUE, attr |-> "none"]
A0 == [kind |-> "archive", list |-> TRUE, size |-> 9, hs |-> 4, bs |-> 3, sec |-> 512, sig |-> FALSE,
       files |-> <<F(<<97>>, 2, FALSE), F(<<98>>, 0, FALSE), F(<<99>>, 1, TRUE)>>]
None == [kind |-> "absent", list |-> FALSE, size |-> 0, hs |-> 0, bs |-> 0, sec |-> 0, sig |-> FALSE, files |-> <<>>]
T == {1, 2}
H == {ToString(i) : i \in 1..MaxH}
Hs == H \union {NULLH}
Errs == {0, 2, 5, 6, 87, 1392}
Names4 == {<<65>>, <<98>>, <<99>>, <<100>>}
Call(s) ==
     [f : {"openA"}, path : {"p0", "absent"}, np : BOOLEAN]
  \union [f : {"openF"}, h : Hs, name : Names4, np : {FALSE}]
  \union [f : {"closeA", "closeF"}, h : Hs, np : {FALSE}]
  \union [f : {"read"}, h : Hs, np : BOOLEAN, n : {0, 1, 3}]
  \union [f : {"seek"}, h : Hs, np : {FALSE}, hashi : BOOLEAN, hi : {0, -1, 1}, lo : {-1, 0, 1}, m : 0..3]
  \union [f : {"has"}, h : Hs, np : {FALSE}, name : {<<97>>, <<100>>}]
  \union [f : {"verifyF"}, h : Hs, np : {FALSE}, name : {<<97>>, <<99>>}, flags : {0, 1, 2}]
  \union [f : {"verifyA"}, h : Hs, np : {FALSE}, flags : {0, 32}]
  \union {[f |-> "setErr", val |-> 7, np |-> FALSE]}
\* the answers the code could conceivably give
Bytes(s, c, k) == IF c.h \in DOMAIN s.file THEN [i \in 1..k |-> Byte(s.file[c.h].c, s.file[c.h].pos + i - 1)] ELSE [i \in 1..k |-> 0]
Answers(s, c) ==
  LET base == [ok : BOOLEAN, err : Errs \union {7}]
  IN  IF c.f \in {"openA", "openF"} THEN {b @@ [out |-> o] : b \in base, o \in H \union {"none"}}
      ELSE IF c.f = "read" THEN {b @@ [got |-> k, bytes |-> Bytes(s, c, k), over |-> 0, hasread |-> TRUE] : b \in base, k \in 0..3}
      ELSE IF c.f = "seek" THEN {b @@ [ret |-> r, rhi |-> 0] : b \in base, r \in -1..3}
      ELSE base
Outcomes(s, t, c) == UNION {After(s, t, c @@ a) : a \in Answers(s, c)}

Init == S = [S0 EXCEPT !.disk = [p \in {"p0", "absent"} |-> IF p = "p0" THEN A0 ELSE None]]
\* handles are taken in order (which one is free does not matter)
InOrder(s, s2) == \A h \in s2.issued \ s.issued : h = ToString(Cardinality(s.issued) + 1)
Next == \E t \in T, c \in Call(S) : \E s2 \in Outcomes(S, t, c) : InOrder(S, s2) /\ S' = s2
Spec == Init /\ [][Next]_S
Bound == Cardinality(S.issued) <= MaxH
View == [S EXCEPT !.err = <<>>]

Inv == HandlesSound(S) /\ PositionsSound(S)
\* every call has an answer (handles may run out in this instance)
Total == \A t \in {1}, c \in Call(S) : Outcomes(S, t, c) # {} \/ (c.f \in {"openA", "openF"} /\ Cardinality(S.issued) = MaxH)
\* ... and, for given arguments, whether it succeeds is determined
Live(s) == DOMAIN s.arch \union DOMAIN s.file
\* a handle that is closed stays closed; a call changes at most the caller's last error
NoRevival == [][\A h \in S.issued : h \notin Live(S) => h \notin Live(S')]_S
OwnError == [][\A t \in T : S'.err[t] # S.err[t] => \A u \in T \ {t} : S'.err[u] = S.err[u]]_S
OwnFiles == [][\A h \in DOMAIN S.file \intersect DOMAIN S'.file : \A g \in DOMAIN S.file \intersect DOMAIN S'.file :
                 S'.file[h] # S.file[h] /\ S'.file[g] # S.file[g] => g = h]_S
=============================================================================
