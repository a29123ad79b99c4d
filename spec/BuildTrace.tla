----------------------------- MODULE BuildTrace -----------------------------
(***************************************************************************)
(* System calls recorded from real builds, with injected failures and       *)
(* kills, against the guarantees of BuildAtomic.  Paths are "dest", "tmpN"  *)
(* (created by the build) or "other" (was there before, or elsewhere).      *)
(* Every successful call is a step; after each the destination must hold    *)
(* what it held before or the complete archive.                             *)
(***************************************************************************)
EXTENDS TraceLib
VARIABLES before, installed, live
bvars == <<before, installed, live>>
\* a file can be in place of the destination only when nothing more is written to it
Step(e) ==
  \/ e.ev = "begin" /\ before' = e.before /\ installed' = FALSE /\ live' = {}
  \/ e.ev = "create" /\ e.path # "dest" /\ live' = live \union {e.path} /\ UNCHANGED <<before, installed>>
  \/ e.ev = "write" /\ e.path # "dest" /\ UNCHANGED bvars
  \/ e.ev = "unlink" /\ e.path # "dest" /\ live' = live \ {e.path} /\ UNCHANGED <<before, installed>>
  \* the only way to change the destination: one file of this build takes its place
  \/ e.ev = "rename" /\ e.to = "dest" /\ e.from \in live /\ ~installed
                     /\ installed' = TRUE /\ live' = live \ {e.from} /\ UNCHANGED before
  \/ e.ev = "rename" /\ e.to # "dest" /\ e.from # "dest" /\ live' = (live \ {e.from}) \union {e.to} /\ UNCHANGED <<before, installed>>
  \* dest: what the path holds in the end; others: every other file as it was; left: new files in the directory
  \/ e.ev = "end" /\ UNCHANGED bvars
        /\ e.dest \in {"before", "new"}
        /\ (e.dest = "before" \/ installed)
        /\ (CASE e.res = "ok" -> e.dest = "new" /\ installed
              [] e.res = "err" -> e.dest = "before" /\ ~installed /\ e.others /\ e.left = 0
              [] e.res = "killed" -> TRUE
              [] OTHER -> FALSE)
        /\ (e.mustfail => e.res # "ok") /\ (e.mustok => e.res = "ok")
TraceInit == TInit /\ before = "" /\ installed = FALSE /\ live = {}
TraceNext == \/ TLive /\ Step(TE) /\ TAccept("")
             \/ TLive /\ ~ENABLED Step(TE) /\ TReject /\ UNCHANGED bvars
             \/ TSkip /\ UNCHANGED bvars
             \/ TFinish /\ UNCHANGED bvars
TraceSpec == TraceInit /\ [][TraceNext]_<<tvars, bvars>>
=============================================================================
