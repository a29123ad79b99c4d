------------------------------- MODULE MCProbe ------------------------------
(***************************************************************************)
(* Design check for name lookup.  A writer puts files into the hash table   *)
(* of an archive and takes them out again; readers look names up, through   *)
(* the extended (partial hash) index where there is one and through the     *)
(* probe chain otherwise, and enumerate the table.                          *)
(*                                                                          *)
(* Slots is the table size.  A name n has its home slot home[n], a full     *)
(* signature (the name itself: the two verification hashes) of which only   *)
(* half[n] is one part, and a partial hash part[n] that several names may   *)
(* share.  A slot is NEVER used, DEAD (its file was removed) or a name.     *)
(***************************************************************************)
EXTENDS Integers, FiniteSets
CONSTANTS Slots, Names, Variant
VARIABLES home, half, part,     \* the hash functions, arbitrary
          table,                \* 0..Slots-1 -> NEVER, DEAD or a name
          stored,               \* the files that are there
          sealed,               \* finished, with an extended index
          index                 \* the slots the extended index points to
vars == <<home, half, part, table, stored, sealed, index>>
NEVER == "never"
DEAD == "dead"
S == 0..(Slots - 1)

\* the chain a lookup walks: from the home slot on, round the end of the table, to the first never used slot
Dist(n, s) == (s - home[n]) % Slots
Reached(n, s) == \A t \in S : Dist(n, t) <= Dist(n, s) => table[t] # NEVER
Walk(n, s) == CASE Variant = "nowrap" -> Reached(n, s) /\ s >= home[n]
                [] Variant = "stopdead" -> Reached(n, s) /\ \A t \in S : Dist(n, t) < Dist(n, s) => table[t] # DEAD
                [] Variant = "short" -> Reached(n, s) /\ Dist(n, s) < Slots - 1
                [] OTHER -> Reached(n, s)
Same(n, s) == IF Variant = "half" THEN table[s] \in Names /\ half[table[s]] = half[n] ELSE table[s] = n
First(n, ss) == CHOOSE s \in ss : \A t \in ss : Dist(n, s) <= Dist(n, t)
Classic(n) == LET ss == {s \in S : Walk(n, s) /\ Same(n, s)} IN IF ss = {} THEN "none" ELSE table[First(n, ss)]
\* the index only narrows the search: what it leads to is compared with the name, otherwise the chain decides
Indexed(n) == IF ~sealed THEN {} ELSE {s \in S : s \in index /\ table[s] \in Names /\ part[table[s]] = part[n]}
Lookup(n) == LET c == Indexed(n) IN
  IF c = {} THEN (IF Variant = "indexonly" /\ sealed THEN "none" ELSE Classic(n))
  ELSE LET s == CHOOSE x \in c : TRUE IN
       IF Variant = "partial" THEN table[s] ELSE IF table[s] = n THEN n ELSE Classic(n)

Init == /\ home \in [Names -> S] /\ half \in [Names -> {1, 2}] /\ part \in [Names -> {1, 2}]
        /\ table = [s \in S |-> NEVER] /\ stored = {} /\ sealed = FALSE /\ index = {}
\* the writer takes the first slot of the chain that is free
Free(s) == table[s] \in (IF Variant = "fillnever" THEN {NEVER} ELSE {NEVER, DEAD})
Put(n) == LET ss == {s \in S : Free(s)} IN
          /\ n \notin stored /\ ~sealed /\ ss # {}
          /\ table' = [table EXCEPT ![First(n, ss)] = n]
          /\ stored' = stored \union {n} /\ UNCHANGED <<home, half, part, sealed, index>>
Remove(n) == /\ n \in stored /\ ~sealed
             /\ table' = [s \in S |-> IF table[s] = n THEN (IF Variant = "forget" THEN NEVER ELSE DEAD) ELSE table[s]]
             /\ stored' = stored \ {n} /\ UNCHANGED <<home, half, part, sealed, index>>
\* a writer of the newer versions adds the index; it may miss files (the chain still has them)
Index == /\ ~sealed /\ sealed' = TRUE /\ \E i \in SUBSET {s \in S : table[s] \in Names} : index' = i
         /\ UNCHANGED <<home, half, part, table, stored>>
Next == Index \/ \E n \in Names : Put(n) \/ Remove(n)

\* a stored name is found as itself, any other is not found
Truthful == \A n \in Names : Lookup(n) = IF n \in stored THEN n ELSE "none"
\* enumerating the used slots gives every stored file once
Enumerated == /\ {table[s] : s \in S} \ {NEVER, DEAD} = stored
              /\ \A s, t \in S : s # t /\ table[s] = table[t] => table[s] \in {NEVER, DEAD}
=============================================================================
