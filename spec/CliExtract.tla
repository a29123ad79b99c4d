----------------------------- MODULE CliExtract -----------------------------
(***************************************************************************)
(* Design of whole-archive extraction: entries are taken one after the      *)
(* other, each is given a place below the target directory or skipped.      *)
(* Rule is the way the place is computed; "safe" is the specified one, the  *)
(* others are mistakes TLC has to find.                                     *)
(***************************************************************************)
EXTENDS CliPath, TLC
CONSTANTS Rule, Keep, MaxParts, MaxEntries
VARIABLES entries, todo, written, skipped, stopped
vars == <<entries, todo, written, skipped, stopped>>

A == <<97>>
Atoms == {A, DOT, DOTDOT, <<>>}
RECURSIVE Names(_)
Names(k) == IF k = 1 THEN Atoms ELSE Names(k - 1) \union {a \o <<SLASH>> \o b : a \in Atoms, b \in Names(k - 1)}
\* "...": a name a one-pass removal of "../" turns into a climbing one is among them through <<46,46,46,46,47,47>>
AllNames == (Names(MaxParts) \union {<<46, 46, 46, 46, 47, 47, 97>>}) \ {<<>>}
Target == <<<<116>>, <<111>>>>

\* the mistakes
RECURSIVE StripLead(_)
StripLead(n) == IF Len(n) >= 3 /\ SubSeq(n, 1, 3) = <<46, 46, 47>> THEN StripLead(SubSeq(n, 4, Len(n)))
                ELSE IF Absolute(n) THEN StripLead(Tail(n)) ELSE n
RECURSIVE DropOnce(_)
DropOnce(n) == IF Len(n) < 3 THEN n
               ELSE IF SubSeq(n, 1, 3) = <<46, 46, 47>> THEN DropOnce(SubSeq(n, 4, Len(n)))
               ELSE <<n[1]>> \o DropOnce(Tail(n))
DropAll(n) == LET d == DropOnce(n) IN IF Absolute(d) THEN Tail(d) ELSE d
\* the path written, NoPath to skip
Place(n) == CASE Rule = "safe"  -> (LET d == Dest(n, Keep) IN IF d = NoPath THEN NoPath ELSE Target \o d)
              [] Rule = "stop"  -> (LET d == Dest(n, Keep) IN IF d = NoPath THEN NoPath ELSE Target \o d)
              [] Rule = "join"  -> Resolve(Target, n)
              [] Rule = "strip" -> Resolve(Target, StripLead(n))
              [] Rule = "once"  -> Resolve(Target, DropAll(n))
              [] Rule = "first" -> (IF (Parts(n) # <<>> /\ Parts(n)[1] = DOTDOT) \/ Absolute(n) \/ Parts(n) = <<>> THEN NoPath ELSE Resolve(Target, n))

Init == /\ entries \in {s \in UNION {[1..k -> AllNames] : k \in 1..MaxEntries} : TRUE}
        /\ todo = entries /\ written = {} /\ skipped = {} /\ stopped = FALSE
Step == /\ todo # <<>> /\ ~stopped
        /\ LET n == Head(todo) IN
           IF Place(n) = NoPath THEN skipped' = skipped \union {n} /\ written' = written /\ stopped' = (Rule = "stop")
           ELSE written' = written \union {Place(n)} /\ UNCHANGED <<skipped, stopped>>
        /\ todo' = Tail(todo) /\ UNCHANGED entries
Done == (todo = <<>> \/ stopped) /\ UNCHANGED vars
Next == Step \/ Done
Spec == Init /\ [][Next]_vars

Contained == \A p \in written : Inside(Target, p)
\* nothing that has a place is lost, and what has a place goes where the name leads
Complete == (todo = <<>> \/ stopped) =>
            \A i \in 1..Len(entries) : LET n == entries[i] IN
               /\ Dest(n, Keep) # NoPath => (Target \o Dest(n, Keep)) \in written
               /\ Dest(n, Keep) = NoPath => n \in skipped
Faithful == \A n \in AllNames : Keep /\ Dest(n, Keep) # NoPath => Target \o Dest(n, Keep) = Resolve(Target, n)
=============================================================================
