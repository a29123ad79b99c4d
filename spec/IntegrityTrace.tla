--------------------------- MODULE IntegrityTrace ---------------------------
(* Recorded damage, reads and reports against Integrity. *)
EXTENDS Integrity, TraceLib
Pairs(s) == {s[k] : k \in 1..Len(s)}
Keep == UNCHANGED ivars
Step(e) ==
  \/ e.ev = "begin" /\ files' = <<>> /\ regs' = <<>> /\ sig' = <<0, 0>> /\ arch' = <<0, 0>> /\ dmg' = {} /\ len' = 0 /\ signed' = FALSE /\ total' = 0 /\ strong' = <<0, 0>> /\ zeronum' = FALSE
  \/ e.ev = "built" /\ Built(e)
  \/ e.ev = "damage" /\ Damage(Pairs(e.ranges), e.len)
  \/ e.ev = "restore" /\ Restore
  \/ e.ev = "read" /\ OnlyFileDamage /\ ReadOk(e.file, e) /\ Keep
  \* opening may fail only when something the tables or header depend on is damaged
  \/ e.ev = "open" /\ (e.ok \/ ~OnlyFileDamage \/ len < total) /\ Keep
  \/ e.ev = "report" /\ (e.ok => ReportOk(e)) /\ (~e.ok => Changed) /\ Keep
  \/ e.ev = "sign" /\ SignatureOk(e.st) /\ Keep
  \/ e.ev = "digest" /\ DigestOk(e) /\ Keep
TraceInit == TInit /\ IInit
TraceNext == \/ TLive /\ Step(TE) /\ TAccept("")
             \/ TLive /\ ~ENABLED Step(TE) /\ TReject /\ Keep
             \/ TSkip /\ Keep
             \/ TFinish /\ Keep
TraceSpec == TraceInit /\ [][TraceNext]_<<tvars, ivars>>
=============================================================================
