----------------------------- MODULE RobustCall -----------------------------
(***************************************************************************)
(* What a call on hostile input may do (Robust's NoPanic, Bounded and        *)
(* Prompt, in measured units): memory in KiB, processor time in ms.          *)
(* inp is the size of the input, out the size of what was returned.          *)
(***************************************************************************)
EXTENDS Integers
BaseKiB == 32768
CpuMs == 10000
CallOk(e) == /\ e.res \in {"ok", "err"}
             /\ e.cpu <= CpuMs
             /\ e.peak <= BaseKiB + 16 * e.inp + 8 * e.out
=============================================================================
