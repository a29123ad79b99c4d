------------------------------ MODULE FfiConc ------------------------------
(***************************************************************************)
(* Checks concurrent C API histories against StormFfi: every call takes     *)
(* effect at one moment between its start ("inv") and its end ("ret"), and  *)
(* returns what the specification allows there.  confs is the set of states *)
(* the system may be in, each with the pending calls that took effect.      *)
(* An enumeration takes its answer at one moment and sets the last error    *)
(* when it ends (its callbacks may make calls in between).                  *)
(***************************************************************************)
EXTENDS StormFfi, TraceLib
VARIABLES confs, pend
vars == <<confs, pend>>

\* pend : id -> [t, e]
Effect(s, p) == LET r == After(s, p.t, p.e)
                IN  IF p.e.f = "enum" /\ p.e.ok THEN {[x EXCEPT !.err[p.t] = s.err[p.t]] : x \in r} ELSE r
LinOne(c) == UNION {{[S |-> s, done |-> c.done \union {i}] : s \in Effect(c.S, pend[i])} : i \in DOMAIN pend \ c.done}
RECURSIVE Close(_, _)
Close(all, new) == IF new = {} THEN all
                   ELSE LET nx == (UNION {LinOne(c) : c \in new}) \ all IN Close(all \union nx, nx)
Took(i) == {c \in Close(confs, confs) : i \in c.done}
Ended(c, e) == [S |-> IF e.enum THEN [c.S EXCEPT !.err[e.t] = 0] ELSE c.S, done |-> c.done \ {e.id}]

Step(e) == \/ e.ev = "begin" /\ confs' = {[S |-> S0, done |-> {}]} /\ pend' = <<>>
           \/ e.ev = "fixture" /\ confs' = {[c EXCEPT !.S.disk = Put(c.S.disk, e.path, e.a)] : c \in confs} /\ UNCHANGED pend
           \/ e.ev = "inv" /\ pend' = Put(pend, e.id, [t |-> e.t, e |-> e.e]) /\ UNCHANGED confs
           \/ e.ev = "ret" /\ Took(e.id) # {} /\ confs' = {Ended(c, e) : c \in Took(e.id)} /\ pend' = Drop(pend, {e.id})
           \/ e.ev = "end" /\ UNCHANGED vars
TraceInit == confs = {} /\ pend = <<>> /\ TInit
TraceNext == \/ TLive /\ Step(TE) /\ TAccept("")
             \/ TLive /\ ~ENABLED Step(TE) /\ TReject /\ UNCHANGED vars
             \/ TSkip /\ UNCHANGED vars
             \/ TFinish /\ UNCHANGED vars
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, tvars>>
=============================================================================
