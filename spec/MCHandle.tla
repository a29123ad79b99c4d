------------------------------ MODULE MCHandle ------------------------------
(***************************************************************************)
(* Design check for handles: several handles on one archive file, each with *)
(* its own position in the file and with tables loaded at once or on first  *)
(* use.  Queries seek and read in steps that may fail (a name not there, a  *)
(* damaged file) half way.  Whatever happened before, a query gets the      *)
(* answer of a fresh handle, and nothing is ever written.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Handles, Depth, Variant
VARIABLES file, pos, tab, cache, ans, log
vars == <<file, pos, tab, cache, ans, log>>
\* the file: cell 1 the table (addresses of a and b), cells 2..3 file a, 4..5 file b, cell 5 damaged
DAMAGED == <<-1>>
MISSING == <<-2>>
File0 == <<99, 11, 12, 21, 0>>
Queries == {"a", "b", "c", "count"}
Truth(q) == CASE q = "a" -> <<11, 12>> [] q = "b" -> DAMAGED [] q = "c" -> MISSING [] OTHER -> <<2>>
Init == /\ file = File0 /\ pos \in [Handles -> {1}] /\ tab \in [Handles -> BOOLEAN]
        /\ cache = [h \in Handles |-> <<>>] /\ ans = <<"", <<>>>> /\ log = 0
\* a query loads the table if it is not there, seeks and reads
Table(h) == [a |-> 2, b |-> 4]
Answer(h, q) ==
  LET t == Table(h)
      start == IF Variant = "noseek" /\ tab[h] THEN pos[h] ELSE t[q]
  IN CASE q = "count" -> IF Variant = "countdeferred" /\ ~tab[h] THEN <<0>> ELSE <<2>>
       [] q \notin DOMAIN t -> IF Variant = "stale" /\ cache[h] # <<>> THEN cache[h] ELSE MISSING
       [] OTHER -> LET got == [i \in 1..2 |-> IF start + i - 1 \in DOMAIN file THEN file[start + i - 1] ELSE 0] IN
                   IF \E i \in 1..2 : got[i] = 0 THEN DAMAGED ELSE got
EndPos(h, q) == LET t == Table(h) IN
  CASE q \notin DOMAIN t -> IF ~tab[h] THEN 2 ELSE pos[h]
    [] OTHER -> IF Answer(h, q) = DAMAGED THEN t[q] + 1 ELSE t[q] + 2          \* an error leaves the position in the middle
Ask(h, q) == /\ log < Depth /\ log' = log + 1
             /\ ans' = <<q, Answer(h, q)>>
             /\ pos' = [k \in Handles |-> IF k = h \/ Variant = "shared" THEN EndPos(h, q) ELSE pos[k]]
             /\ tab' = [tab EXCEPT ![h] = TRUE]
             /\ cache' = [cache EXCEPT ![h] = IF Answer(h, q) \in {<<11, 12>>} THEN <<11, 12>> ELSE @]
             /\ file' = IF Variant = "touch" /\ q = "count" THEN [file EXCEPT ![3] = 0] ELSE file
Next == \E h \in Handles, q \in Queries : Ask(h, q)
Spec == Init /\ [][Next]_vars
SameAnswer == ans[1] # "" => ans[2] = Truth(ans[1])
ReadOnly == file = File0
=============================================================================
