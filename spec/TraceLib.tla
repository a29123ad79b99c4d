------------------------------ MODULE TraceLib ------------------------------
(***************************************************************************)
(* Trace validation.  A trace file holds many runs; each starts with a      *)
(* "begin" event.  An event the specification does not allow is recorded in *)
(* bad and the rest of its run is skipped.  Events explained only by an     *)
(* action that stands for a known finding are recorded in known.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

VARIABLES l, skip, bad, known, done
tvars == <<l, skip, bad, known, done>>

Trace == ndJsonDeserialize(IOEnv.TRACE)
TE == Trace[l]
TInit == l = 1 /\ skip = FALSE /\ bad = <<>> /\ known = <<>> /\ done = FALSE
TLive == l <= Len(Trace) /\ (~skip \/ TE.ev = "begin")
TAccept(key) == /\ l' = l + 1 /\ skip' = FALSE
                    /\ known' = (IF key # "" THEN Append(known, <<l, key>>) ELSE known)
                    /\ UNCHANGED <<bad, done>>
TReject == /\ l' = l + 1 /\ skip' = TRUE /\ bad' = Append(bad, l) /\ UNCHANGED <<known, done>>
TSkip == /\ l <= Len(Trace) /\ skip /\ TE.ev # "begin" /\ l' = l + 1 /\ UNCHANGED <<skip, bad, known, done>>
TFinish == /\ l > Len(Trace) /\ ~done /\ done' = TRUE
           /\ JsonSerialize(IOEnv.OUT, [bad |-> bad, known |-> known, n |-> Len(Trace)])
           /\ UNCHANGED <<l, skip, bad, known>>
TView == <<l, skip, done>>
=============================================================================
