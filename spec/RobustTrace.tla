---------------------------- MODULE RobustTrace ----------------------------
(* Recorded outcomes, processor time and peak memory of calls on hostile input. *)
EXTENDS RobustCall, TraceLib
Step(e) == e.ev \in {"begin", "unbuilt"} \/ (e.ev = "call" /\ CallOk(e))
TraceNext == \/ TLive /\ Step(TE) /\ TAccept("")
             \/ TLive /\ ~Step(TE) /\ TReject
             \/ TSkip
             \/ TFinish
TraceSpec == TInit /\ [][TraceNext]_tvars
=============================================================================
