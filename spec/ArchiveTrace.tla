---------------------------- MODULE ArchiveTrace ----------------------------
(* Checks recorded executions of the library against Archive. *)
EXTENDS Archive, TraceLib, MpqCrypt

F(e) == [name |-> e.name, norm |-> <<>>, loc |-> e.loc, len |-> e.len, dig |-> e.dig,
         method |-> e.method, enc |-> e.enc, src |-> e.src]
HashesOk(kind, items) ==
  /\ kind = "listh" => \A i \in 1..Len(items) :
        items[i].h = <<HashString(items[i].name, NAME_A), HashString(items[i].name, NAME_B)>>
  /\ kind = "allh" => LET hs == [i \in 1..Len(pending) |->
                                   <<HashString(pending[i].name, NAME_A), HashString(pending[i].name, NAME_B)>>]
                      IN  \A i \in 1..Len(items) : items[i].h # <<>> =>
                            \/ \E j \in 1..Len(hs) : hs[j] = items[i].h /\ pending[j].len = items[i].size
                            \/ Listed(cfg) /\ items[i].h = <<HashString(LISTFILE, NAME_A), HashString(LISTFILE, NAME_B)>>
Step(e) == \/ e.ev = "begin" /\ Begin(e.cfg)
           \/ e.ev = "add" /\ Add(F(e))
           \/ e.ev = "build" /\ e.res # "panic" /\ Build(e.res = "ok")
           \/ e.ev = "open" /\ e.res = "ok" /\ Open(e.h, e.deferred)
           \/ e.ev = "close" /\ Close(e.h)
           \/ e.ev = "load" /\ Load(e.h, e.res = "ok")
           \/ e.ev = "find" /\ e.res # "err" /\ Find(e.h, e.name, e)
           \/ e.ev = "find" /\ e.res = "err" /\ FindRefused(e.h)
           \/ e.ev = "read" /\ Read(e.h, e.name, e)
           \/ e.ev = "list" /\ List(e.h, e.kind, e) /\ HashesOk(e.kind, e.items)
           \/ e.ev = "info" /\ Info(e.h, e)
           \/ e.ev = "verify" /\ Verify(e.h, e)
           \/ e.ev = "attrs" /\ Attrs(e.h, e)
           \/ e.ev = "peek" /\ Peek(e.h, e)
           \/ e.ev = "file" /\ FileIs(e.dig)
           \/ e.ev = "end" /\ UNCHANGED vars
Known(e) == IF e.ev = "find" /\ e.res = "err" THEN "find-deferred" ELSE ""

TraceInit == Init /\ TInit
TraceNext == \/ TLive /\ Step(TE) /\ TAccept(Known(TE))
             \/ TLive /\ ~ENABLED Step(TE) /\ TReject /\ UNCHANGED vars
             \/ TSkip /\ UNCHANGED vars
             \/ TFinish /\ UNCHANGED vars
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, tvars>>
=============================================================================
