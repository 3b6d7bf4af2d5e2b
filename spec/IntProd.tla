------------------------------ MODULE IntProd ------------------------------
(***************************************************************************)
(* Interrupts.  While the compiled program (P.main) runs on the TaC, the   *)
(* interrupt function P.intr strikes, once, before any instruction: every  *)
(* position is explored.  The hardware pushes the flags and the program    *)
(* counter; RETI takes them back.  Whatever it interrupts, the interrupt   *)
(* function must do what the source machine says (evI), give every         *)
(* register and flag back as it found it, leave the stack above the        *)
(* pushed context alone, and the program must go on as if nothing had      *)
(* happened.                                                               *)
(***************************************************************************)
EXTENDS TacProd

VARIABLES stage,   \* source: 0 the program, 1 the interrupt function
          evM, evI,\* expected events of the program, of the interrupt function
          isav,    \* what was interrupted (<<>>: nothing)
          struck   \* the interrupt has happened
ivars == <<stage, evM, evI, isav, struck>>
all == <<allvars, ivars>>

IInit == Init /\ stage = 0 /\ evM = <<>> /\ evI = <<>> /\ isav = <<>> /\ struck = FALSE

ISrc == SrcPart /\ UNCHANGED ivars

\* the program is through: run the interrupt function
IHandler ==
  /\ SrcDone /\ stage = 0
  /\ stage' = 1
  /\ evM' = Append(ev, <<0, Top(V)>>)
  /\ C' = <<<<"enter", P.intr>>, Nil>> /\ V' = Nil /\ ev' = <<>>
  /\ UNCHANGED <<pid, ph, F, G, H, nin, st, info, steps, evI, isav, struck>>
  /\ UNCHANGED tacv

IStart ==
  /\ SrcDone /\ stage = 1
  /\ stage' = 2 /\ evI' = ev
  /\ ph' = "tac"
  /\ ev' = evM
  /\ pc' = Im.entry /\ R' = TInitR /\ fl' = NoFlags /\ D' = Im.data /\ K' = TInitK
  /\ sh' = Push(<<0, SavedOf([TInitR EXCEPT ![SPr] = StkTop]), 0>>, Nil)
  /\ te' = 0 /\ tin' = 0 /\ hp' = Im.heap /\ tst' = 0
  /\ UNCHANGED <<pid, C, V, F, G, H, nin, st, info, steps, evM, isav, struck>>

Running == ph = "tac" /\ st = "run"
InHandler == isav # <<>>
\* flags and program counter are opaque to the program
Opaque == U

Strike ==
  /\ Running /\ ~struck /\ ~InHandler
  /\ R[SPr] - 4 >= StkTop - 2 * StkWords
  /\ struck' = TRUE
  /\ isav' = <<pc, R, fl, K, sh, te>>
  /\ LET a == R[SPr] - 4 IN
     /\ K' = [K EXCEPT ![(StkTop - a) \div 2] = Opaque, ![(StkTop - a) \div 2 - 1] = Opaque]
     /\ R' = [R EXCEPT ![SPr] = a]
  /\ pc' = Im.intr
  /\ fl' = NoFlags
  /\ sh' = Push(<<-1, <<>>, 0>>, Nil)
  /\ te' = 0 /\ ev' = evI
  /\ UNCHANGED <<pid, ph, C, V, F, G, H, nin, st, info, steps, D, tin, hp, tst, stage, evM, evI>>

\* words of the stack the interrupted program owns
Above(k, sp) == [i \in 1..((StkTop - sp) \div 2) |-> k[i]]

Reti ==
  LET s == isav sp == s[2][SPr] IN
  IF ~InHandler THEN Stuck("reti") /\ UNCHANGED ivars
  ELSE IF Pop(sh) # Nil \/ R[SPr] # sp - 4 THEN Stuck("reti stack") /\ UNCHANGED ivars
  ELSE IF ~Checked THEN Stuck("stack checks") /\ UNCHANGED ivars
  ELSE IF [R EXCEPT ![SPr] = sp] # s[2]
  THEN Stop("bad", <<"interrupt changed a register", s[1], {i \in 1..12 : R[i] # s[2][i]}>>) /\ UNCHANGED ivars
  ELSE IF Above(K, sp) # Above(s[4], sp) THEN Stuck("interrupt changed the stack") /\ UNCHANGED ivars
  ELSE IF te # Len(evI) THEN Stuck("missing event of the interrupt") /\ UNCHANGED ivars
  ELSE /\ pc' = s[1] /\ R' = s[2] /\ fl' = s[3] /\ K' = s[4] /\ sh' = s[5] /\ te' = s[6]
       /\ ev' = evM /\ isav' = <<>>
       /\ UNCHANGED <<pid, ph, C, V, F, G, H, nin, st, info, steps, D, tin, hp, tst, stage, evM, evI, struck>>

ITac ==
  /\ Running
  /\ IF tst > 4000 + 40 * steps THEN Stop("bad", <<"too long">>) /\ UNCHANGED ivars
     ELSE IF pc \in 1..Len(Im.code) /\ Im.code[pc].o = "RETI" THEN Reti
     ELSE IF InHandler /\ pc \in 1..Len(Im.code) /\ Im.code[pc].o = "RET" /\ Pop(sh) = Nil
     THEN Stuck("ret in an interrupt function") /\ UNCHANGED ivars
     ELSE TacStep /\ UNCHANGED ivars

INext == ISrc \/ IHandler \/ IStart \/ Strike \/ ITac
=============================================================================
