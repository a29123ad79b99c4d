------------------------------ MODULE CliPath ------------------------------
(***************************************************************************)
(* Where an archive entry goes when it is extracted, and how names are      *)
(* selected by patterns.  Names are sequences of characters (code points);  *)
(* a path is a sequence of components.                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

SLASH == 47
DOT == <<46>>
DOTDOT == <<46, 46>>
NoPath == <<>>

\* the components of a name
SplitStep(acc, c) == IF c = SLASH THEN [done |-> Append(acc.done, acc.cur), cur |-> <<>>] ELSE [acc EXCEPT !.cur = Append(@, c)]
Split(n) == LET r == FoldLeft(SplitStep, [done |-> <<>>, cur |-> <<>>], n) IN Append(r.done, r.cur)
Absolute(n) == n # <<>> /\ n[1] = SLASH
Parts(n) == SelectSeq(Split(n), LAMBDA c : c # <<>> /\ c # DOT)
RECURSIVE Join(_)
Join(cs) == IF cs = <<>> THEN <<>> ELSE IF Len(cs) = 1 THEN cs[1] ELSE cs[1] \o <<SLASH>> \o Join(Tail(cs))

\* where the operating system takes a name, starting at a directory
Resolve(base, n) == FoldLeft(LAMBDA p, c : IF c = DOTDOT THEN (IF p = <<>> THEN <<>> ELSE Front(p)) ELSE Append(p, c),
                             IF Absolute(n) THEN <<>> ELSE base, Parts(n))
Inside(dir, p) == Len(p) > Len(dir) /\ SubSeq(p, 1, Len(dir)) = dir
Beneath(dir, p) == p = dir \/ Inside(dir, p)

\* the place of an entry below the target directory; NoPath: it has none
Climbs(n) == \E i \in 1..Len(Parts(n)) : Parts(n)[i] = DOTDOT
Dest(n, keep) == IF Parts(n) = <<>> THEN NoPath
                 ELSE IF keep THEN (IF Absolute(n) \/ Climbs(n) THEN NoPath ELSE Parts(n))
                 ELSE IF Last(Parts(n)) = DOTDOT THEN NoPath ELSE <<Last(Parts(n))>>

\* file systems limit the bytes of a component and of a path, and know no NUL
Bytes(c) == IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2 ELSE IF c < 65536 THEN 3 ELSE 4
ByteLen(s) == FoldLeft(LAMBDA a, c : a + Bytes(c), 0, s)
Writable(p) == p # NoPath /\ (\A i \in 1..Len(p) : ByteLen(p[i]) <= 255 /\ (\A j \in 1..Len(p[i]) : p[i][j] # 0)) /\ ByteLen(Join(p)) < 3000

-----------------------------------------------------------------------------
\* patterns: sequences of tokens [t, cs, rep]; t = "lit" (one of cs), "not" (none of cs), "any"; rep = "1", "*", "+", "?"
Lower(c) == IF c \in 65..90 \/ c \in 192..214 \/ c \in 216..222 THEN c + 32 ELSE c     \* ASCII and Latin-1
LowerName(n) == [i \in 1..Len(n) |-> Lower(n[i])]
LowerTok(t) == [t EXCEPT !.cs = LowerName(t.cs)]
HasChar(cs, c) == \E i \in 1..Len(cs) : cs[i] = c
One(t, c) == CASE t.t = "lit" -> HasChar(t.cs, c) [] t.t = "not" -> ~HasChar(t.cs, c) [] t.t = "any" -> TRUE
Advance(S, t, s) == {i + 1 : i \in {j \in S : j < Len(s) /\ One(t, s[j + 1])}}
RECURSIVE Repeat(_, _, _)
Repeat(S, t, s) == LET N == S \union Advance(S, t, s) IN IF N = S THEN S ELSE Repeat(N, t, s)
Consume(S, t, s) == CASE t.rep = "1" -> Advance(S, t, s)
                      [] t.rep = "?" -> S \union Advance(S, t, s)
                      [] t.rep = "*" -> Repeat(S, t, s)
                      [] t.rep = "+" -> Repeat(Advance(S, t, s), t, s)
Ends(toks, S, s) == FoldLeft(LAMBDA a, t : Consume(a, t, s), S, toks)
\* a pattern [toks, from, to, fold]: anchored at the start / the end or not, ignoring case or not
PatMatch(p, name) == LET s == IF p.fold THEN LowerName(name) ELSE name
                         ts == IF p.fold THEN [i \in 1..Len(p.toks) |-> LowerTok(p.toks[i])] ELSE p.toks
                         r == Ends(ts, IF p.from THEN {0} ELSE 0..Len(s), s)
                     IN  IF p.to THEN Len(s) \in r ELSE r # {}
Occurs(part, name) == \E k \in 0..(Len(name) - Len(part)) : SubSeq(name, k + 1, k + Len(part)) = part
=============================================================================
