---------------------------- MODULE SpecialTrace ----------------------------
(* Recorded parses of attribute files and name lists against SpecialFiles and NameList. *)
EXTENDS SpecialFiles, TraceLib
Ascii(s) == SelectSeq(s, LAMBDA c : c < 128)
Step(e) ==
  \/ e.ev = "begin"
  \/ e.ev = "attr" /\ IF WellFormed(e.data, e.n)
                      THEN e.ok /\ Parsed(e.got, e.data, e.n) /\ e.wrote /\ SameContent(e.again, e.data, e.n)
                      ELSE ~e.ok
  \* n is the number of files of the archive, the name list and the attributes file included
  \/ e.ev = "archattr" /\ e.has /\ e.same
                       /\ IF WellFormed(e.data, e.n) THEN e.ok /\ e.loaded /\ Parsed(e.got, e.data, e.n) ELSE ~e.loaded
  \/ e.ev = "list" /\ e.ok
                   /\ LET want == ParseList(e.data) IN
                      IF e.valid THEN e.names = want
                      ELSE /\ Len(e.names) = Len(want)            \* undecodable bytes are replaced, the rest is kept
                           /\ \A k \in 1..Len(want) : Ascii(e.names[k]) = Ascii(want[k])
TraceInit == TInit
TraceNext == \/ TLive /\ Step(TE) /\ TAccept("")
             \/ TLive /\ ~Step(TE) /\ TReject
             \/ TSkip
             \/ TFinish
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
