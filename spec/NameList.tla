------------------------------ MODULE NameList ------------------------------
(***************************************************************************)
(* The name list format ("(listfile)"): lines ended by LF or CRLF, blanks   *)
(* around entries ignored, empty lines and lines starting with ';' or '#'   *)
(* skipped, anything from a ';' on ignored.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

IsBlank(c) == c \in 9..13 \/ c = 32
SEMI == 59
HASH == 35

TrimL(s) == IF \A i \in 1..Len(s) : IsBlank(s[i]) THEN <<>>
            ELSE LET k == CHOOSE i \in 1..Len(s) : ~IsBlank(s[i]) /\ \A j \in 1..(i-1) : IsBlank(s[j])
                 IN  SubSeq(s, k, Len(s))
TrimR(s) == IF \A i \in 1..Len(s) : IsBlank(s[i]) THEN <<>>
            ELSE LET k == CHOOSE i \in 1..Len(s) : ~IsBlank(s[i]) /\ \A j \in (i+1)..Len(s) : IsBlank(s[j])
                 IN  SubSeq(s, 1, k)
Trim(s) == TrimR(TrimL(s))

\* the lines of a text (the part after the last LF is a line when not empty)
LineStep(acc, c) == IF c = 10 THEN [lines |-> Append(acc.lines, acc.cur), cur |-> <<>>]
                    ELSE [acc EXCEPT !.cur = Append(@, c)]
Lines(text) == LET r == FoldLeft(LineStep, [lines |-> <<>>, cur |-> <<>>], text)
               IN  IF r.cur = <<>> THEN r.lines ELSE Append(r.lines, r.cur)

CutAtSemi(s) == IF \E i \in 1..Len(s) : s[i] = SEMI
                THEN SubSeq(s, 1, (CHOOSE i \in 1..Len(s) : s[i] = SEMI /\ \A j \in 1..(i-1) : s[j] # SEMI) - 1)
                ELSE s
\* the entry a line carries, <<>> if none
EntryOf(line) == LET t == Trim(line)
                 IN  IF t = <<>> THEN <<>>
                     ELSE IF t[1] = SEMI \/ t[1] = HASH THEN <<>>
                     ELSE Trim(CutAtSemi(t))
ParseList(text) == LET ls == Lines(text)
                   IN  SelectSeq([i \in 1..Len(ls) |-> EntryOf(ls[i])], LAMBDA e : e # <<>>)

\* Unicode blanks are outside this specification (bytes C2 85, C2 A0, E1 9A 80, E2 80 xx, E3 80 80)
NonAsciiEdge(s) == s # <<>> /\ (s[1] \in {194, 225, 226, 227} \/ s[Len(s)] \in 128..175)
\* a name a list can carry
Representable(name) == /\ name # <<>>
                       /\ \A i \in 1..Len(name) : name[i] \notin {10, 13}
                       /\ EntryOf(name) = name
                       /\ ~NonAsciiEdge(name)
=============================================================================
