------------------------------- MODULE Names -------------------------------
(***************************************************************************)
(* Names are sequences of bytes.  Two names denote the same file iff they   *)
(* are equal after Norm: ASCII letters ignoring case, slash = backslash.    *)
(***************************************************************************)
EXTENDS Integers, Sequences

UpperByte(c) == IF c >= 97 /\ c <= 122 THEN c - 32 ELSE c
NormByte(c) == IF c = 47 THEN 92 ELSE UpperByte(c)
Norm(name) == [i \in 1..Len(name) |-> NormByte(name[i])]
SameName(a, b) == Len(a) = Len(b) /\ Norm(a) = Norm(b)

LISTFILE   == <<40, 108, 105, 115, 116, 102, 105, 108, 101, 41>>
ATTRIBUTES == <<40, 97, 116, 116, 114, 105, 98, 117, 116, 101, 115, 41>>
SIGNATURE  == <<40, 115, 105, 103, 110, 97, 116, 117, 114, 101, 41>>
=============================================================================
