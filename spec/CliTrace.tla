------------------------------ MODULE CliTrace ------------------------------
(* Recorded command line sessions against the specification. *)
EXTENDS Cli, TraceLib
vars == <<fs, arc, whole, conf, l, skip, bad, known, done>>
Op(e) == LET t == TLCEval(TreeOf(e.tree)) IN
  IF e.ev = "config" THEN Config(e, t) ELSE conf' = (IF e.ev = "begin" THEN Defaults ELSE conf) /\
  CASE e.ev = "begin" -> fs' = t /\ arc' = NoArc /\ whole' = NoArc
    [] e.ev = "create" -> Create(e, t)
    [] e.ev = "put" -> Put(e, t)
    [] e.ev = "damage" -> Damage(e, t)
    [] e.ev = "restore" -> Restore(e, t)
    [] e.ev = "list" -> List(e, t)
    [] e.ev = "find" -> Find(e, t)
    [] e.ev = "info" -> FileInfo(e, t)
    [] e.ev = "ainfo" -> ArchiveInfo(e, t)
    [] e.ev = "verify" -> Verify(e, t)
    [] e.ev = "extract" -> ExtractAll(e, t)
    [] e.ev = "extract1" -> ExtractOne(e, t)
TraceInit == TInit /\ fs = <<>> /\ arc = NoArc /\ whole = NoArc /\ conf = Defaults
TraceNext == \/ TLive /\ Op(TE) /\ TAccept("")
             \/ TLive /\ ~ENABLED Op(TE) /\ TReject /\ UNCHANGED <<fs, arc, whole, conf>>
             \/ TSkip /\ UNCHANGED <<fs, arc, whole, conf>>
             \/ TFinish /\ UNCHANGED <<fs, arc, whole, conf>>
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
