----------------------------- MODULE CryptTrace -----------------------------
(***************************************************************************)
(* Recorded calls of the hash and cipher functions against MpqCrypt.  The   *)
(* state is only the position in the trace: the functions are pure, and     *)
(* each call is a step whose result must be the published value.            *)
(***************************************************************************)
EXTENDS MpqCrypt, TraceLib

Tail4(s) == SubSeq(s, 4 * (Len(s) \div 4) + 1, Len(s))

BytesHead(e) == WordsOf(e.out) = Encrypt(WordsOf(e.data), e.key) /\ Len(e.out) = Len(e.data)
\* the 1-3 bytes after the last whole word stay as they are
PublishedTail(e) == Tail4(e.out) = Tail4(e.data)

Step(e) ==
  \/ e.ev = "begin"
  \/ e.ev = "table" /\ \A k \in 0..1279 : e.words[k + 1] = CryptTable[k]
  \/ e.ev = "hash" /\ e.out = HashString(e.name, e.type)
  \* the command-line tool prints the same values
  \/ e.ev = "tool" /\ e.ok /\ e.out = [k \in 1..Len(e.types) |-> HashString(e.name, e.types[k])]
  \/ e.ev = "jenkins" /\ e.out = Jenkins(e.name)
  \* long blocks: compared word by word with a second implementation, which the events "second" tie to the functions above
  \/ e.ev = "second" /\ e.out = (IF e.enc THEN Crypt(e.data, e.key, TRUE) ELSE Crypt(e.data, e.key, FALSE))
  \/ e.ev = "long" /\ e.differ = <<>> /\ e.back = <<>>
  \/ e.ev = "enc" /\ e.out = Encrypt(e.data, e.key)
  \/ e.ev = "dec" /\ e.out = Decrypt(e.data, e.key)
  \/ e.ev = "dword" /\ e.out = Decrypt(<<e.data>>, e.key)[1]
  \/ e.ev = "bytes" /\ BytesHead(e) /\ PublishedTail(e)
  \/ e.ev = "variants" /\ \A i, j \in 1..Len(e.names) : SameName(e.names[i], e.names[j]) => e.outs[i] = e.outs[j]

TraceInit == TInit
TraceNext == \/ TLive /\ Step(TE) /\ TAccept("")
             \/ TLive /\ ~Step(TE) /\ TReject
             \/ TSkip
             \/ TFinish
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
