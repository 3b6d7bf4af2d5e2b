------------------------------ MODULE Outcome ------------------------------
(***************************************************************************)
(* What a run of a translator may do with a text: it ends, with success    *)
(* and no message, or with status 1 after one message that names the file  *)
(* and a line of it.  Anything else (a report of the sanitizers, a signal, *)
(* another status, no end) is an event no action takes.                    *)
(*                                                                         *)
(* H[h] has the verdict v of the text, the number of its lines and whether *)
(* it has line markers.  said: the message has been seen; over: it ended.  *)
(***************************************************************************)
EXTENDS Trace

VARIABLES said, over
vars == <<h, n, said, over>>

Msg(e) ==
  /\ e.k = "msg" /\ ~said /\ ~over
  /\ e.text > 0                                     \* it says something
  /\ H[h].marked \/ (e.arg /\ e.line \in 1..H[h].lines)
  /\ said' = TRUE /\ over' = over
Exit(e) ==
  /\ e.k = "exit" /\ ~over
  /\ \/ e.v = 0 /\ ~said /\ H[h].v \in {"acc", "any"}
     \/ e.v = 1 /\ said /\ H[h].v \in {"rej", "any"}
  /\ over' = TRUE /\ said' = said

Init == TInit /\ said = FALSE /\ over = FALSE
Next == More /\ (LET e == Ev IN Msg(e) \/ Exit(e)) /\ Take
Spec == Init /\ [][Next]_vars
=============================================================================
