------------------------------ MODULE Trace ------------------------------
(***************************************************************************)
(* Common part of the modules that validate recorded histories: H is the   *)
(* list of histories, h the one being taken, n the number of its events    *)
(* taken so far.                                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

VARIABLES h, n

H == JsonDeserialize(IOEnv.TRACES)
Show == IOEnv.SHOW = "yes"
Ev == H[h].ev[n + 1]
More == n < Len(H[h].ev)
TInit == h \in 1..Len(H) /\ n = 0
Take == n' = n + 1 /\ h' = h
\* invariant that reports how far each history got
Report == /\ (n = Len(H[h].ev) => PrintT(<<"V", H[h].id>>))
          /\ (Show => PrintT(<<"N", H[h].id, n>>))
=============================================================================
