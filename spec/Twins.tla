------------------------------- MODULE Twins -------------------------------
(***************************************************************************)
(* One compiler in several bodies: written in C ("src"), written in C-- and *)
(* compiled through C by itself ("src--"), and written in C-- and compiled  *)
(* to TaC by itself, on the TaC machine ("tac").                            *)
(*                                                                          *)
(* A history is the runs of the bodies on texts.  What a body does with a   *)
(* text under given options is a function of the two alone: memo holds what *)
(* was seen first, and every later run, of the same body or another one,    *)
(* must do the same.  The outcome of a run is its status, its output and    *)
(* its messages (all) and the same read by an assembler, which takes        *)
(* numbers modulo 2^16 (meant): TaC prints 65535 as -1.  A TaC machine may  *)
(* also run out of memory on a large text (full).                           *)
(***************************************************************************)
EXTENDS Trace

VARIABLE memo
vars == <<h, n, memo>>

Key(e) == <<e.tool, e.opts, e.text>>
Same(a, e) == IF e.body = "tac" \/ a.body = "tac" THEN a.meant = e.meant /\ a.st = e.st
              ELSE a.all = e.all /\ a.st = e.st
Run(e) ==
  IF e.body = "tac" /\ e.full /\ e.large THEN memo' = memo
  ELSE /\ ~e.full
       /\ IF Key(e) \in DOMAIN memo THEN Same(memo[Key(e)], e) /\ memo' = memo
          ELSE memo' = [x \in DOMAIN memo \cup {Key(e)} |-> IF x = Key(e) THEN e ELSE memo[x]]

Init == TInit /\ memo = [x \in {} |-> 0]
Next == More /\ Run(Ev) /\ Take
Spec == Init /\ [][Next]_vars
=============================================================================
