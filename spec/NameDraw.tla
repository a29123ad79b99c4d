------------------------------ MODULE NameDraw ------------------------------
(***************************************************************************)
(* Names drawn character by character: printable ASCII that a name list can *)
(* carry, rich in dots, separators and digits, also at the edges.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
Pick(s) == s[RandomElement(1..Len(s))]
DrawnChar(z) ==
  LET k == RandomElement(1..16) IN
  CASE k <= 6 -> RandomElement(97..122)
    [] k = 7 -> RandomElement(65..90)
    [] k = 8 -> RandomElement(48..57)
    [] k \in 9..10 -> 46
    [] k \in 11..12 -> Pick(<<92, 92, 47>>)
    [] OTHER -> LET c == RandomElement(33..126) IN IF c \in {35, 59} THEN 95 ELSE c
DrawnName(z) == [i \in 1..Pick(<<1, 2, 3, 4, 5, 7, 9, 12, 20>>) |-> DrawnChar(i)]
=============================================================================
