------------------------------- MODULE Robust -------------------------------
(***************************************************************************)
(* A reader of hostile input: header search, table loading, hash probing,   *)
(* sector offsets, decompression.  Every field it reads is chosen by an      *)
(* adversary at the moment it is read.  N is the input length, D the largest *)
(* value a field can declare (D > N), T the number of hash slots, S the      *)
(* number of sectors.  The reader has to end, without panic, after a bounded *)
(* number of steps, holding memory bounded by the input and by what has      *)
(* really been decoded.  Wrong selects a defective reader.                   *)
(***************************************************************************)
EXTENDS Integers, FiniteSets
CONSTANTS N, D, T, S, Wrong
VARIABLES pc, pos, alloc, out, steps, res, slot, start, used, last, left, decl
vars == <<pc, pos, alloc, out, steps, res, slot, start, used, last, left, decl>>

Min(a, b) == IF a < b THEN a ELSE b
Init == /\ pc = "scan" /\ pos = 0 /\ alloc = 0 /\ out = 0 /\ steps = 0 /\ res = "run" /\ slot = 0 /\ start = 0 /\ used = {}
        /\ last = 0 /\ left = 0 /\ decl = 0
End(r) == res' = r /\ pc' = "end"
Tick == steps' = steps + 1
Keep(v) == UNCHANGED v

Scan == /\ pc = "scan" /\ Tick
        /\ IF pos >= N THEN End("err") /\ Keep(<<pos, alloc, out, slot, start, used, last, left, decl>>)
           ELSE \/ (* a header *) pc' = "table" /\ Keep(<<pos, alloc, out, res, slot, start, used, last, left, decl>>)
                \/ (* nothing here *) pos' = pos + 1 /\ Keep(<<pc, alloc, out, res, slot, start, used, last, left, decl>>)
                \/ (* user data, pointing p further *)
                   \E p \in 0..D : \E hdr \in BOOLEAN :
                     IF pos + p < N /\ hdr THEN pc' = "table" /\ pos' = pos + p /\ Keep(<<alloc, out, res, slot, start, used, last, left, decl>>)
                     ELSE /\ pos' = (IF Wrong = "follow" /\ pos + p < N THEN pos + p ELSE pos + 1)
                          /\ Keep(<<pc, alloc, out, res, slot, start, used, last, left, decl>>)
Table == /\ pc = "table" /\ Tick
         /\ \E n \in 0..D :
              /\ alloc' = alloc + (IF Wrong = "trust" THEN n ELSE Min(n, N - pos))
              /\ IF n > N - pos THEN End("err") /\ Keep(<<slot, start, used>>)
                 ELSE /\ pc' = "probe" /\ res' = res
                      /\ \E u \in SUBSET (0..T - 1) : \E s \in 0..T - 1 : used' = u /\ slot' = s /\ start' = s
         /\ Keep(<<pos, out, last, left, decl>>)
\* slots in used hold other names; the name may be found in any of them
Forget == slot' = 0 /\ start' = 0 /\ used' = {} /\ pos' = 0
Probe == /\ pc = "probe" /\ Tick
         /\ \/ slot \in used /\ pc' = "sectors" /\ left' = S /\ last' = 0 /\ Keep(res) /\ Forget
            \/ slot \notin used /\ End("ok") /\ Keep(<<left, last>>) /\ Forget
            \/ /\ slot \in used /\ slot' = (slot + 1) % T /\ Keep(<<left, last, pos, start, used>>)
               /\ IF slot' = start /\ Wrong # "nowrap" THEN End("ok") ELSE Keep(<<pc, res>>)
         /\ Keep(<<alloc, out, decl>>)
Sectors == /\ pc = "sectors" /\ Tick
           /\ IF left = 0 THEN End("ok") /\ Keep(<<pos, alloc, out, last, left, decl>>)
              ELSE \E nxt \in 0..D :
                IF nxt < last THEN End(IF Wrong = "sub" THEN "panic" ELSE "err") /\ Keep(<<pos, alloc, out, last, left, decl>>)
                ELSE IF nxt > N THEN End("err") /\ Keep(<<pos, alloc, out, last, left, decl>>)
                ELSE \E size \in 0..D : /\ pc' = "decode" /\ last' = nxt /\ left' = left - 1 /\ decl' = size
                                        /\ alloc' = alloc + (nxt - last) + (IF Wrong = "prealloc" THEN size ELSE 0)
                                        /\ Keep(<<res, pos, out>>)
           /\ Keep(<<slot, start, used>>)
\* the stream goes on for as long as the adversary likes; the reader stops one unit beyond the declared size
Decode == /\ pc = "decode" /\ Tick
          /\ \/ pc' = "sectors" /\ Keep(<<res, alloc, out, decl>>)
             \/ /\ out' = out + 1 /\ alloc' = alloc + 1
                /\ IF decl = 0 /\ Wrong # "endless" THEN End("err") /\ Keep(decl)
                   ELSE decl' = (IF decl = 0 THEN 0 ELSE decl - 1) /\ Keep(<<pc, res>>)
          /\ Keep(<<pos, slot, start, used, last, left>>)
Next == Scan \/ Table \/ Probe \/ Sectors \/ Decode
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

StepBound == N + 2 + T + 1 + S * (D + 3) + 1
NoPanic == res # "panic"
Bounded == alloc <= 2 * N + out
Prompt == steps <= StepBound
Ends == <>(res # "run")
=============================================================================
