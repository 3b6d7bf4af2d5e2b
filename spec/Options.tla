------------------------------ MODULE Options ------------------------------
(***************************************************************************)
(* The arguments of the translators c--, vm-c--, ic-c--, c-c-- and         *)
(* rtc-c--: "[-h] [-v] [-O0] [-O] [-O1] [-K] [<source file>]", given in    *)
(* this order, and what a run with them does.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES args, done
Max == atoi(IOEnv.MAXARGS)
Words == {"-h", "-v", "-O0", "-O", "-O1", "-K", "f.cmm", "bad.cmm", "none.cmm"}
IsFile(w) == w \in {"f.cmm", "bad.cmm", "none.cmm"}
Level(w) == CASE w \in {"-h", "-v"} -> 1 [] w \in {"-O0", "-O", "-O1"} -> 2 [] w = "-K" -> 3 [] OTHER -> 4
Init == args = <<>> /\ done = FALSE
Count(A) == Cardinality({k \in 1..Len(args) : args[k] \in A})
Files == Count({"f.cmm", "bad.cmm", "none.cmm"})
\* in the documented order, each option once
Ordered == \A j, k \in 1..Len(args) : j < k => Level(args[j]) < Level(args[k]) \/ (IsFile(args[j]) /\ IsFile(args[k]))
Opt == Count({"-O0"}) = 0
Krn == Count({"-K"}) > 0
Src == IF Files = 0 THEN "-" ELSE args[Len(args)]
Verdict == IF Len(args) > 0 /\ args[1] \in {"-h", "-v"} THEN "usage"
           ELSE IF ~Ordered THEN "undecided"
           ELSE IF Files > 1 \/ Src = "none.cmm" THEN "fail"
           ELSE IF Src = "bad.cmm" THEN "error"
           ELSE "ok"
Add == /\ ~done /\ Len(args) < Max /\ \E w \in Words : args' = Append(args, w) /\ UNCHANGED done
Emit == /\ ~done /\ done' = TRUE /\ UNCHANGED args
        /\ Verdict # "undecided" => PrintT(ToJson([args |-> args, v |-> Verdict, opt |-> Opt, krn |-> Krn, src |-> Src]))
Next == Add \/ Emit
Spec == Init /\ [][Next]_<<args, done>>
\* at most one source, and nothing but options before it
OneSource == Verdict \in {"ok", "error"} => Files <= 1 /\ \A k \in 1..Len(args) - 1 : ~IsFile(args[k])
=============================================================================
