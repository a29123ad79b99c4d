----------------------------- MODULE StormLocks -----------------------------
(***************************************************************************)
(* The C API's locking design: one action per lock operation or critical    *)
(* section.  Locks: A (archives), N (next handle), F (files).  Each thread  *)
(* makes a sequence of calls chosen from Calls; callbacks of an enumeration *)
(* make a call of their own.  Variants reproduce designs that are wrong:    *)
(* "enumholds" keeps A during callbacks, "verifyholds" keeps A while every  *)
(* file is verified, "closesplit" closes an archive and its files in two    *)
(* steps, "order" opens files taking F before A.                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Threads, NCalls, Variant

VARIABLES holder,   \* lock -> thread or 0
          next,     \* next handle
          arch,     \* open archives (handles)
          file,     \* open files: handle -> archive
          prog,     \* thread -> instructions left
          reg,      \* thread -> [id, ok, arch, closed]
          calls     \* thread -> calls left
vars == <<holder, next, arch, file, prog, reg, calls>>

L(k) == <<"lock", k>>
U(k) == <<"unlock", k>>
D(x) == <<"do", x>>
SimpleOps == {"openA", "closeA", "openF", "closeF", "read", "info", "verifyA"}
VerifyProg == IF Variant = "verifyholds"
              THEN <<L("A"), D("snap"), L("A"), D("chk"), U("A"), U("A")>>
              ELSE <<L("A"), D("snap"), U("A"), L("A"), D("chk"), U("A"), L("A"), D("chk"), U("A")>>
Prog(op) ==
  CASE op = "openA" -> <<L("N"), D("newid"), U("N"), L("A"), D("insA"), U("A")>>
    [] op = "closeA" -> (IF Variant = "closesplit" THEN <<L("F"), D("rmFiles"), U("F"), L("A"), D("rmA"), U("A"), D("closed")>>
                         ELSE <<L("A"), D("rmA"), L("F"), D("rmFiles"), U("F"), U("A"), D("closed")>>)
    [] op = "openF" -> (IF Variant = "order" THEN <<L("F"), L("A"), D("chk"), L("N"), D("newid"), U("N"), D("insF"), U("A"), U("F")>>
                        ELSE <<L("A"), D("chk"), L("N"), D("newid"), U("N"), L("F"), D("insF"), U("F"), U("A")>>)
    [] op = "closeF" -> <<L("F"), D("rmF"), U("F")>>
    [] op = "read" -> <<L("F"), D("read"), U("F")>>
    [] op = "info" -> <<L("F"), D("read"), U("F"), L("A"), D("chk"), U("A")>>
    [] op = "verifyA" -> VerifyProg
EnumProg(inner) == IF Variant = "enumholds" THEN <<L("A"), D("snap")>> \o Prog(inner) \o <<U("A")>>
                   ELSE <<L("A"), D("snap"), U("A")>> \o Prog(inner)
Programs == {Prog(o) : o \in SimpleOps} \union {EnumProg(o) : o \in SimpleOps}

\* archive 1 and its file 2 are open at the start
Init == /\ holder = [k \in {"A", "N", "F"} |-> 0]
        /\ next = 3 /\ arch = {1} /\ file = [h \in {2} |-> 1]
        /\ prog = [t \in Threads |-> <<>>]
        /\ reg = [t \in Threads |-> [id |-> 0, ok |-> TRUE]]
        /\ calls = [t \in Threads |-> NCalls]

Begin(t) == /\ prog[t] = <<>> /\ calls[t] > 0
            /\ \E p \in Programs : prog' = [prog EXCEPT ![t] = p]
            /\ reg' = [reg EXCEPT ![t] = [id |-> 0, ok |-> TRUE]]
            /\ calls' = [calls EXCEPT ![t] = @ - 1]
            /\ UNCHANGED <<holder, next, arch, file>>
Rest(t) == prog' = [prog EXCEPT ![t] = Tail(@)]
Lock(t) == /\ prog[t] # <<>> /\ Head(prog[t])[1] = "lock"
           /\ LET k == Head(prog[t])[2] IN holder[k] = 0 /\ holder' = [holder EXCEPT ![k] = t]
           /\ Rest(t) /\ UNCHANGED <<next, arch, file, reg, calls>>
Unlock(t) == /\ prog[t] # <<>> /\ Head(prog[t])[1] = "unlock"
             /\ holder' = [holder EXCEPT ![Head(prog[t])[2]] = 0]
             /\ Rest(t) /\ UNCHANGED <<next, arch, file, reg, calls>>
\* the critical sections; the target of every call is archive 1 / file 2 (or what is new)
Do(t) ==
  /\ prog[t] # <<>> /\ Head(prog[t])[1] = "do" /\ Rest(t) /\ UNCHANGED <<holder, calls>>
  /\ LET x == Head(prog[t])[2] IN
     CASE x = "newid" -> next' = next + 1 /\ reg' = [reg EXCEPT ![t].id = next] /\ UNCHANGED <<arch, file>>
       [] x = "insA" -> arch' = arch \union {reg[t].id} /\ UNCHANGED <<next, file, reg>>
       [] x = "chk" -> reg' = [reg EXCEPT ![t].ok = 1 \in arch] /\ UNCHANGED <<next, arch, file>>
       [] x = "insF" -> file' = (IF reg[t].ok THEN [h \in DOMAIN file \union {reg[t].id} |-> IF h = reg[t].id THEN 1 ELSE file[h]] ELSE file)
                        /\ UNCHANGED <<next, arch, reg>>
       [] x = "rmA" -> arch' = arch \ {1} /\ UNCHANGED <<next, file, reg>>
       [] x = "rmFiles" -> file' = [h \in {g \in DOMAIN file : file[g] # 1} |-> file[h]] /\ UNCHANGED <<next, arch, reg>>
       [] x = "rmF" -> \E h \in DOMAIN file \union {2} : file' = [g \in DOMAIN file \ {h} |-> file[g]] /\ UNCHANGED <<next, arch, reg>>
       [] OTHER -> UNCHANGED <<next, arch, file, reg>>
Finished == \A t \in Threads : prog[t] = <<>> /\ calls[t] = 0
Next == (\E t \in Threads : Begin(t) \/ Lock(t) \/ Unlock(t) \/ Do(t)) \/ (Finished /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Begin(t) \/ Lock(t) \/ Unlock(t) \/ Do(t))

\* whenever nobody is inside the archive section, every open file belongs to an open archive
NoOrphans == holder["A"] = 0 => \A h \in DOMAIN file : file[h] \in arch
\* no thread waits for a lock it holds, nor for one below a lock it holds
Rank(k) == CASE k = "A" -> 1 [] k = "N" -> 2 [] k = "F" -> 3
Ordered == \A t \in Threads : (prog[t] # <<>> /\ Head(prog[t])[1] = "lock") =>
              \A k \in DOMAIN holder : holder[k] = t => Rank(k) < Rank(Head(prog[t])[2])
HandlesDistinct == arch \intersect DOMAIN file = {}
AllReturn == <>Finished
Sym == Permutations(Threads)
=============================================================================
