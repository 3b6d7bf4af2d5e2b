----------------------------- MODULE VmIntProd -----------------------------
(***************************************************************************)
(* Interrupts on the virtual stack machine: IntProd for the listings of    *)
(* vm-c-- and the intermediate code of ic-c--.  The interrupt function     *)
(* P.intr strikes once, before any instruction of the program; it runs in  *)
(* an activation of its own that begins with ENTRYI and ends with RETI,    *)
(* and everything of the interrupted activation is as before afterwards.   *)
(***************************************************************************)
EXTENDS VmProd

VARIABLES stage, evM, evI, isav, struck
ivars == <<stage, evM, evI, isav, struck>>

IInit == Init /\ stage = 0 /\ evM = <<>> /\ evI = <<>> /\ isav = <<>> /\ struck = FALSE

ISrc == SrcPart /\ UNCHANGED ivars

IHandler ==
  /\ SrcDone /\ stage = 0
  /\ stage' = 1
  /\ evM' = Append(ev, <<0, Top(V)>>)
  /\ C' = <<<<"enter", P.intr>>, Nil>> /\ V' = Nil /\ ev' = <<>>
  /\ UNCHANGED <<pid, ph, F, G, H, nin, st, info, steps, evI, isav, struck>>
  /\ UNCHANGED tacv

IStart ==
  /\ SrcDone /\ stage = 1
  /\ stage' = 2 /\ evI' = ev
  /\ ph' = "vm"
  /\ ev' = evM
  /\ mpc' = Im.entry /\ S' = <<>> /\ A' = <<>> /\ L' = [l |-> <<>>, p |-> <<>>]
  /\ M' = Im.objs /\ rr' = VU /\ fs' = <<>>
  /\ te' = 0 /\ tin' = 0 /\ tst' = 0
  /\ UNCHANGED <<pid, C, V, F, G, H, nin, st, info, steps, evM, isav, struck>>

Running == ph = "vm" /\ st = "run"
InHandler == isav # <<>>
At == IF mpc \in 1..Len(Im.code) THEN Im.code[mpc].o ELSE ""

Strike ==
  /\ Running /\ ~struck
  /\ struck' = TRUE
  /\ isav' = <<mpc, S, A, L, rr, fs, te>>
  /\ mpc' = Im.intr
  /\ S' = <<>> /\ A' = <<>> /\ L' = [l |-> <<>>, p |-> <<>>] /\ rr' = VU /\ fs' = <<>>
  /\ te' = 0 /\ ev' = evI
  /\ UNCHANGED <<pid, ph, C, V, F, G, H, nin, st, info, steps, M, tin, tst, stage, evM, evI>>

\* the activation of the interrupt function itself
Outer == InHandler /\ fs = <<>>

EntryI == /\ L' = [L EXCEPT !.l = [q \in 1..Im.code[mpc].n |-> VU]] /\ mpc' = mpc + 1
          /\ UNCHANGED <<S, A, M, rr, fs, te, tin>> /\ Keep /\ UNCHANGED ivars
Reti ==
  IF ~Outer THEN Stuck("reti") /\ UNCHANGED ivars
  ELSE IF S # <<>> THEN Stuck("operands left behind") /\ UNCHANGED ivars
  ELSE IF A # <<>> THEN Stuck("arguments left behind") /\ UNCHANGED ivars
  ELSE IF te # Len(evI) THEN Stuck("missing event of the interrupt") /\ UNCHANGED ivars
  ELSE /\ mpc' = isav[1] /\ S' = isav[2] /\ A' = isav[3] /\ L' = isav[4] /\ rr' = isav[5]
       /\ fs' = isav[6] /\ te' = isav[7]
       /\ ev' = evM /\ isav' = <<>>
       /\ UNCHANGED <<pid, ph, C, V, F, G, H, nin, st, info, steps, M, tin, tst, stage, evM, evI, struck>>

IVm ==
  /\ Running
  /\ IF tst > 4000 + 40 * steps THEN Stop("bad", <<"too long">>) /\ UNCHANGED ivars
     ELSE IF At = "RETI" THEN Reti
     ELSE IF At = "ENTRYI" /\ Outer THEN EntryI
     ELSE IF Outer /\ At \in {"ENTRY", "ENTRYK", "RET"} THEN Stuck("not an interrupt function") /\ UNCHANGED ivars
     ELSE VmStep /\ UNCHANGED ivars

INext == ISrc \/ IHandler \/ IStart \/ Strike \/ IVm
=============================================================================
