---------------------------- MODULE CliRoundTrip ----------------------------
(***************************************************************************)
(* Design of archiving a directory and extracting it again: the directory   *)
(* is walked, each chosen file is stored under its path relative to the     *)
(* directory, and extraction with paths puts each entry at its place.       *)
(* What comes back is what was chosen, wherever the walk began and in       *)
(* whatever order it went.  Rule "right" is the specified design, the       *)
(* others are mistakes TLC has to find.                                     *)
(***************************************************************************)
EXTENDS CliPath, FiniteSetsExt, TLC
CONSTANTS Rule, MaxFiles, MaxDepth
VARIABLES tree, src, deep, skip, queue, arc, refused, out, todo, phase
vars == <<tree, src, deep, skip, queue, arc, refused, out, todo, phase>>

Comp == {<<97>>, <<65>>, <<98>>}
Paths == UNION {[1..k -> Comp] : k \in 1..MaxDepth}
\* a tree of files; no file is a directory of another
Trees == {T \in UNION {kSubset(k, Paths) : k \in 1..MaxFiles} : \A p, q \in T : p # q => ~Beneath(p, q)}
Fold(n) == LowerName(n)
\* patterns: nothing, or a component name
Ignored(rel) == skip # <<>> /\ Last(rel) = skip
Rel(p) == SubSeq(p, Len(src) + 1, Len(p))
Chosen == {p \in tree : Inside(src, p) /\ (deep \/ Len(p) = Len(src) + 1) /\ ~Ignored(Rel(p))}

Dirs(T) == ({<<>>} \union {SubSeq(p, 1, Min({k, Len(p) - 1})) : p \in T, k \in 1..(MaxDepth - 1)}) \ T
Init == /\ tree \in Trees
        /\ src \in {d \in Dirs(tree) : \E p \in tree : Inside(d, p)}
        /\ deep \in BOOLEAN /\ skip \in {<<>>, <<98>>}
        /\ queue = {src} /\ arc = <<>> /\ refused = FALSE /\ out = <<>> /\ todo = {} /\ phase = "walk"

StoredAs(p) == CASE Rule = "flat" -> Last(p)
                 [] Rule = "full" -> Join(p)
                 [] Rule = "ignoredir" -> Join(Rel(p))
                 [] OTHER -> Join(Rel(p))
Kids(d) == {SubSeq(p, 1, Len(d) + 1) : p \in {q \in tree : Inside(d, q)}}
Walk == /\ phase = "walk" /\ queue # {}
        /\ \E x \in queue :
             IF x \in tree
             THEN LET n == StoredAs(x)
                      same == {m \in DOMAIN arc : Fold(m) = Fold(n)}
                  IN /\ queue' = queue \ {x}
                     /\ IF Ignored(Rel(x)) THEN UNCHANGED <<arc, refused>>
                        ELSE IF same # {} /\ Rule # "overwrite" THEN refused' = TRUE /\ UNCHANGED arc
                        ELSE arc' = [m \in ((DOMAIN arc) \ same) \union {n} |-> IF m = n THEN x ELSE arc[m]] /\ UNCHANGED refused
             ELSE /\ queue' = (queue \ {x}) \union
                                (IF x = src \/ (deep /\ (Rule # "ignoredir" \/ ~Ignored(Rel(x)))) \/ (Rule = "deeper" /\ Len(x) = Len(src) + 1)
                                 THEN Kids(x) ELSE {})
                  /\ UNCHANGED <<arc, refused>>
        /\ UNCHANGED <<tree, src, deep, skip, out, todo, phase>>
Close == /\ phase = "walk" /\ queue = {}
         /\ IF refused THEN phase' = "end" /\ UNCHANGED todo ELSE phase' = "take" /\ todo' = DOMAIN arc
         /\ UNCHANGED <<tree, src, deep, skip, queue, arc, refused, out>>
Take == /\ phase = "take" /\ todo # {}
        /\ \E n \in todo : LET d == Dest(n, TRUE) IN
             out' = [p \in (DOMAIN out) \union {d} |-> IF p = d THEN arc[n] ELSE out[p]] /\ todo' = todo \ {n}
        /\ UNCHANGED <<tree, src, deep, skip, queue, arc, refused, phase>>
End == phase = "take" /\ todo = {} /\ phase' = "end" /\ UNCHANGED <<tree, src, deep, skip, queue, arc, refused, out, todo>>
Next == Walk \/ Close \/ Take \/ End
Spec == Init /\ [][Next]_vars

\* what was chosen comes back, each file where it was and with what it held
Back == phase = "end" /\ ~refused => /\ DOMAIN out = {Rel(p) : p \in Chosen}
                                     /\ \A p \in Chosen : out[Rel(p)] = p
\* and only names that are one name to an archive stand in the way
Refusal == phase = "end" => (refused = \E p, q \in Chosen : p # q /\ Fold(Join(Rel(p))) = Fold(Join(Rel(q))))
=============================================================================
