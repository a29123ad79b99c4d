------------------------------ MODULE FfiTrace ------------------------------
(* Sequential C API traces.  Calls a callback makes during an enumeration are between "enumcall" and "enumret". *)
EXTENDS StormFfi, TraceLib
VARIABLE S
vars == S

Fixture(e) == [S EXCEPT !.disk = Put(S.disk, e.path, e.a)]
Step(e) == \/ e.ev = "begin" /\ S' = S0
           \/ e.ev = "fixture" /\ S' = Fixture(e)
           \/ e.ev = "call" /\ S' \in After(S, 0, e)
           \/ e.ev = "enumcall" /\ e.ok /\ After(S, 0, e) # {} /\ UNCHANGED S    \* the last error is set when it returns
           \/ e.ev = "enumret" /\ e.err = 0 /\ e.ok /\ S' = [S EXCEPT !.err[0] = e.err]
           \/ e.ev = "end" /\ UNCHANGED S
TraceInit == S = S0 /\ TInit
TraceNext == \/ TLive /\ Step(TE) /\ TAccept("")
             \/ TLive /\ ~ENABLED Step(TE) /\ TReject /\ UNCHANGED vars
             \/ TSkip /\ UNCHANGED vars
             \/ TFinish /\ UNCHANGED vars
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, tvars>>
=============================================================================
