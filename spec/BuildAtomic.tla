---------------------------- MODULE BuildAtomic ----------------------------
(***************************************************************************)
(* Building an archive into a directory, one file-system operation at a     *)
(* time, with a failure or a kill possible at every operation.              *)
(*   dest   content of the destination: "absent", "old", "new", or "part"   *)
(*   temps  set of temporary files this build created and has not removed   *)
(*   got    blocks of the new archive in the temporary file                 *)
(*   pc     start, reading, writing, ready, renamed, failing, ok, err, dead *)
(* Variant "ok" is the design; the others are wrong.                        *)
(***************************************************************************)
EXTENDS Integers
CONSTANTS Blocks, Variant
VARIABLES before, dest, temps, got, buffered, pc
vars == <<before, dest, temps, got, buffered, pc>>

Init == /\ before \in {"absent", "old"} /\ dest = before /\ temps = 0 /\ got = 0 /\ buffered = 0 /\ pc = "start"
InPlace == Variant = "inplace"
Full == got = Blocks

\* sources are read and names checked before or while writing; any of it may fail
CreateTemp == /\ pc = "start" /\ pc' = "writing"
              /\ IF InPlace THEN dest' = "part" /\ UNCHANGED temps ELSE temps' = 1 /\ UNCHANGED dest
              /\ UNCHANGED <<before, got, buffered>>
CreateFails == pc = "start" /\ pc' = "err" /\ UNCHANGED <<before, dest, temps, got, buffered>>
Write == /\ pc = "writing" /\ got + buffered < Blocks
         /\ IF Variant = "lateflush" /\ got + buffered = Blocks - 1 THEN buffered' = 1 /\ UNCHANGED got ELSE got' = got + 1 /\ UNCHANGED buffered
         /\ UNCHANGED <<before, dest, temps, pc>>
WriteFails == /\ pc = "writing" /\ pc' = "failing" /\ UNCHANGED <<before, dest, temps, got, buffered>>
Done == /\ pc = "writing" /\ got + buffered = Blocks /\ pc' = "ready" /\ UNCHANGED <<before, dest, temps, got, buffered>>
\* Variant "unlinkfirst": the old destination is removed before the rename
UnlinkDest == /\ pc = "ready" /\ Variant = "unlinkfirst" /\ dest = "old" /\ dest' = "absent" /\ UNCHANGED <<before, temps, got, buffered, pc>>
Rename == /\ pc = "ready" /\ (Variant = "unlinkfirst" => dest # "old")
          /\ pc' = "renamed" /\ temps' = 0 /\ dest' = (IF Full THEN "new" ELSE "part")
          /\ UNCHANGED <<before, got, buffered>>
RenameFails == /\ pc = "ready" /\ pc' = (IF Variant = "ignorerename" THEN "renamed" ELSE "failing") /\ UNCHANGED <<before, dest, temps, got, buffered>>
Flush == /\ pc = "renamed" /\ buffered = 1 /\ got' = Blocks /\ buffered' = 0 /\ dest' = "new" /\ UNCHANGED <<before, temps, pc>>
Report == /\ pc = "renamed" /\ buffered = 0 /\ pc' = "ok" /\ UNCHANGED <<before, dest, temps, got, buffered>>
Cleanup == /\ pc = "failing" /\ pc' = "err"
           /\ temps' = (IF Variant = "litter" THEN temps ELSE 0)
           /\ UNCHANGED <<before, dest, got, buffered>>
Kill == pc \notin {"ok", "err", "dead"} /\ pc' = "dead" /\ UNCHANGED <<before, dest, temps, got, buffered>>
Next == CreateTemp \/ CreateFails \/ Write \/ WriteFails \/ Done \/ UnlinkDest \/ Rename \/ RenameFails \/ Flush \/ Report \/ Cleanup \/ Kill
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

AllOrNothing == dest \in {before, "new"}
SuccessInstalls == pc = "ok" => dest = "new"
FailureLeaves == pc = "err" => dest = before /\ temps = 0
Ends == <>(pc \in {"ok", "err", "dead"})
=============================================================================
