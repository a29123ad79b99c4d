----------------------------- MODULE ScaleTrace -----------------------------
(* Recorded executions on large archives against Scale. *)
EXTENDS Scale, TraceLib
Step(e) == \/ e.ev = "begin" /\ SBegin(e.ar)
           \/ e.ev = "build" /\ SBuild(e.res = "ok")
           \/ e.ev = "again" /\ Again(e)
           \/ e.ev = "vast" /\ Vast(e)
           \/ e.ev = "sweep" /\ Sweep(e)
           \/ e.ev = "absent" /\ Absent(e)
           \/ e.ev = "named" /\ Named(e)
           \/ e.ev = "enum" /\ Enumerated(e)
           \/ e.ev = "info" /\ Summary(e)
           \/ e.ev = "deep" /\ Deep(e)
           \/ e.ev = "raw" /\ Raw(e)
           \/ e.ev = "damage" /\ Damage(e)
TraceInit == SInit /\ TInit
TraceNext == \/ TLive /\ Step(TE) /\ TAccept("")
             \/ TLive /\ ~ENABLED Step(TE) /\ TReject /\ UNCHANGED svars
             \/ TSkip /\ UNCHANGED svars
             \/ TFinish /\ UNCHANGED svars
TraceSpec == TraceInit /\ [][TraceNext]_<<svars, tvars>>
=============================================================================
