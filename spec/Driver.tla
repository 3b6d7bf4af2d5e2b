------------------------------ MODULE Driver ------------------------------
(***************************************************************************)
(* The commands cm2e, cm2c, cm2i and cm2v: the passes they run over their  *)
(* sources, the files that come out, and what happens when a pass fails.   *)
(*                                                                         *)
(* A run first chooses a command line (opts, a sequence of options, and    *)
(* srcs, a sequence of sources), then does pass after pass; any pass may   *)
(* fail.  The content of a file is a term that says what made it from      *)
(* what.  keep are the files that are asked for, temp those in between.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

VARIABLES cmd, opts, srcs, st, i, q, cur, keep, temp, objs, out, ran, fails
vars == <<cmd, opts, srcs, st, i, q, cur, keep, temp, objs, out, ran, fails>>

MaxOpts == atoi(IOEnv.MAXOPTS)
MaxSrcs == atoi(IOEnv.MAXSRCS)
\* with FAILS = 0 nothing fails
MayFail == IOEnv.FAILS = "1"

Opts(c) == {"-E", "-nostdinc", "-I i1", "-Ii2", "-DX=1", "-DY=\"p q\""}
           \cup (IF c = "cm2e" THEN {"-S", "-c", "-K", "-P", "-o p", "-o d/p.exe"} \cup (IF MayFail THEN {"-o q.bad"} ELSE {}) ELSE {})
           \cup (IF c = "cm2c" THEN {"-S", "-c", "-rtc", "-nortc", "-o p", "-o d/p"} ELSE {})
Kinds(c) == {"cmm"} \cup (IF MayFail THEN {"txt", "none"} ELSE {}) \cup (IF c = "cm2e" THEN {"s", "o"} ELSE IF c = "cm2c" THEN {"c", "o"} ELSE {})
Base == <<"a", "b", "x.y", "e">>

Has(o) == \E k \in 1..Len(opts) : opts[k] = o
E == Has("-E")
S == Has("-S")
C == Has("-c")
\* the last of the options in A, or d
RECURSIVE LastOf(_, _, _)
LastOf(s, A, d) == IF s = <<>> THEN d ELSE IF s[Len(s)] \in A THEN s[Len(s)] ELSE LastOf(SubSeq(s, 1, Len(s) - 1), A, d)
Rtc == LastOf(opts, {"-rtc", "-nortc"}, "-rtc") = "-rtc"
Exe == LET o == LastOf(opts, {"-o p", "-o d/p.exe", "-o q.bad", "-o d/p"}, "")
       IN CASE o = "" -> (IF cmd = "cm2e" THEN "a.exe" ELSE "a.out")
            [] o = "-o p" -> (IF cmd = "cm2e" THEN "p.exe" ELSE "p")
            [] o = "-o d/p.exe" -> "d/p.exe"
            [] o = "-o d/p" -> "d/p"
            [] OTHER -> "bad"

Inc(o) == IF o = "-I i1" THEN "i1," ELSE IF o = "-Ii2" THEN "i2," ELSE ""
RECURSIVE Incs(_)
Incs(s) == IF s = <<>> THEN "" ELSE Inc(Head(s)) \o Incs(Tail(s))
Defs == (IF cmd = "cm2c" THEN "C," ELSE "") \o (IF Has("-DX=1") THEN "X=1," ELSE "") \o (IF Has("-DY=\"p q\"") THEN "Y=\"p q\"," ELSE "")
        \o (IF cmd = "cm2c" /\ Rtc THEN "_RTC," ELSE "")
Cpp(t) == "cpp{" \o Incs(opts) \o ";" \o Defs \o ";" \o (IF Has("-nostdinc") THEN "0" ELSE "1") \o ";"
          \o (IF cmd = "cm2c" THEN "cfunc.hmm" ELSE "") \o "}(" \o t \o ")"
Lib == IF Rtc THEN "LibRtc" ELSE "LibNortc"
Rt == IF Rtc THEN "rtc" ELSE ""
Tr(t) == CASE cmd = "cm2e" -> "c--{" \o (IF Has("-K") THEN "K" ELSE "") \o "}(" \o t \o ")"
           [] cmd = "cm2v" -> "vm-c--{}(" \o t \o ")"
           [] cmd = "cm2i" -> "ic-c--{}(" \o t \o ")"
           [] cmd = "cm2c" -> (IF Rtc THEN "rtc-c--" ELSE "c-c--") \o "{}(" \o t \o ")"
TrName == CASE cmd = "cm2e" -> "c--" [] cmd = "cm2v" -> "vm-c--" [] cmd = "cm2i" -> "ic-c--" [] cmd = "cm2c" -> (IF Rtc THEN "rtc-c--" ELSE "c-c--")
TrExt == CASE cmd = "cm2e" -> ".s" [] cmd = "cm2v" -> ".v" [] cmd = "cm2i" -> ".i" [] cmd = "cm2c" -> ".c"
Obj(t) == IF cmd = "cm2e" THEN "as(" \o t \o ")" ELSE "cc{" \o Rt \o ";wrapper.h;" \o Lib \o "}(" \o t \o ")"
ObjName == IF cmd = "cm2e" THEN "as--" ELSE "cc"
RECURSIVE Terms(_)
Terms(s) == IF s = <<>> THEN "" ELSE Head(s)[2] \o ";" \o Terms(Tail(s))

Src == srcs[i]
Stem == Src.d \o Base[i]
Text == "src" \o ToString(i)
None == [x \in {} |-> ""]

\* does the command go beyond files of its own kind: one more pass after the translator
More == cmd \in {"cm2e", "cm2c"} /\ ~S
Links == cmd \in {"cm2e", "cm2c"} /\ ~E /\ ~S /\ ~C

Init == /\ cmd \in {"cm2e", "cm2c", "cm2i", "cm2v"} /\ opts = <<>> /\ srcs = <<>> /\ st = "opts" /\ i = 1 /\ q = "" /\ cur = ""
        /\ keep = None /\ temp = None /\ objs = <<>> /\ out = "" /\ ran = <<>> /\ fails = ""
U1 == UNCHANGED <<cmd, i, q, cur, keep, temp, objs, out, ran, fails>>
AddOpt == /\ st = "opts" /\ Len(opts) < MaxOpts
          /\ \E o \in Opts(cmd) : opts' = Append(opts, o)
          /\ UNCHANGED <<st, srcs>> /\ U1
Opted == /\ st = "opts" /\ st' = "srcs" /\ UNCHANGED <<opts, srcs>> /\ U1
AddSrc == /\ st = "srcs" /\ Len(srcs) < MaxSrcs
          /\ \E k \in Kinds(cmd), d \in {"", "d/"} : srcs' = Append(srcs, [k |-> k, d |-> d])
          /\ UNCHANGED <<st, opts>> /\ U1
Start == /\ st = "srcs" /\ (MayFail \/ srcs # <<>>) /\ UNCHANGED <<cmd, opts, srcs, i, cur, keep, temp, objs, out, ran>>
         /\ IF srcs = <<>> \/ Exe = "bad" THEN st' = "bad" /\ q' = "" /\ fails' = "usage" ELSE st' = "run" /\ q' = "begin" /\ UNCHANGED fails

Fixed == UNCHANGED <<cmd, opts, srcs>>
\* the source number i is looked at
Begin ==
  /\ st = "run" /\ q = "begin" /\ i <= Len(srcs) /\ Fixed /\ UNCHANGED <<i, keep, temp, out, ran>>
  /\ LET k == Src.k IN
     IF k = "txt" THEN st' = "bad" /\ fails' = "extension" /\ UNCHANGED <<q, cur, objs>>
     ELSE /\ UNCHANGED <<st, fails>>
          /\ CASE k \in {"cmm", "none"} -> q' = "cpp" /\ cur' = Text /\ UNCHANGED objs
               [] k \in {"s", "c"} -> q' = (IF E \/ S THEN "next" ELSE "obj") /\ cur' = Text /\ UNCHANGED objs
               [] k = "o" -> q' = "next" /\ objs' = Append(objs, <<Stem \o ".o", Text>>) /\ UNCHANGED cur
Pass(name) == ran' = Append(ran, name)
Fail(name) == MayFail /\ st' = "bad" /\ fails' = name /\ UNCHANGED <<i, q, cur, keep, temp, objs, out>>
Fine == UNCHANGED <<st, fails, i>>

DoCpp == /\ st = "run" /\ q = "cpp" /\ Fixed /\ Pass("cpp")
         /\ \/ Fail(IF Src.k = "none" THEN "missing" ELSE "cpp")
            \/ /\ Src.k # "none" /\ Fine /\ UNCHANGED <<keep, objs>>
               /\ IF E THEN out' = out \o Cpp(cur) /\ q' = "next" /\ UNCHANGED <<cur, temp>>
                  ELSE cur' = Cpp(cur) /\ q' = "tr" /\ temp' = ("temp" :> Cpp(cur)) /\ UNCHANGED out
DoTr == /\ st = "run" /\ q = "tr" /\ Fixed /\ Pass(TrName)
        /\ \/ Fail(TrName)
           \/ /\ Fine /\ UNCHANGED <<objs, out>> /\ cur' = Tr(cur)
              /\ IF More THEN q' = "obj" /\ temp' = (Stem \o TrExt :> Tr(cur)) /\ UNCHANGED keep
                 ELSE q' = "next" /\ keep' = (Stem \o TrExt :> Tr(cur)) @@ keep /\ temp' = None
DoObj == /\ st = "run" /\ q = "obj" /\ Fixed /\ Pass(ObjName)
         /\ \/ Fail(ObjName)
            \/ /\ Fine /\ UNCHANGED out /\ cur' = Obj(cur) /\ q' = "next" /\ temp' = None
               /\ objs' = Append(objs, <<Stem \o ".o", Obj(cur)>>)
               /\ keep' = IF C THEN (Stem \o ".o" :> Obj(cur)) @@ keep ELSE keep
NextSrc == /\ st = "run" /\ q = "next" /\ i' = i + 1 /\ q' = "begin" /\ Fixed /\ UNCHANGED <<st, cur, keep, temp, objs, out, ran, fails>>
Finish == /\ st = "run" /\ q = "begin" /\ i > Len(srcs) /\ Fixed /\ UNCHANGED <<i, cur, keep, temp, objs, out, ran, fails>>
          /\ IF Links THEN q' = "ld" /\ st' = st ELSE q' = "" /\ st' = "good"
LdName == IF cmd = "cm2e" THEN "ld--" ELSE "cc"
DoLd == /\ st = "run" /\ q = "ld" /\ Fixed /\ Pass(LdName)
        /\ \/ Fail(LdName)
           \/ /\ fails' = fails /\ UNCHANGED <<i, out, objs>>
              /\ IF cmd = "cm2e" THEN cur' = "ld(libtac;" \o Terms(objs) \o ")" /\ q' = "exe" /\ temp' = ("temp" :> cur') /\ UNCHANGED <<st, keep>>
                 ELSE /\ keep' = (Exe :> "link{" \o Rt \o ";" \o Lib \o "}(" \o Terms(objs) \o ")") @@ keep
                      /\ st' = "good" /\ temp' = None /\ q' = "" /\ UNCHANGED cur
DoExe == /\ st = "run" /\ q = "exe" /\ Fixed /\ Pass("objexe--")
         /\ \/ Fail("objexe--")
            \/ /\ fails' = fails /\ UNCHANGED <<i, out, objs, cur>>
               /\ keep' = (Exe :> "exe{" \o (IF Has("-P") THEN "P" ELSE "") \o "}(" \o cur \o ")") @@ keep
               /\ st' = "good" /\ temp' = None /\ q' = ""
Emit == /\ st \in {"good", "bad"}
        /\ PrintT(ToJson([cmd |-> cmd, opts |-> opts, srcs |-> srcs, st |-> st, fails |-> fails, ran |-> ran, out |-> out, exe |-> Exe, w |-> st = "bad" /\ q \in {"ld", "exe"},
                          keep |-> {<<x, keep[x]>> : x \in DOMAIN keep}]))
        /\ st' = "end" /\ Fixed /\ UNCHANGED <<i, q, cur, keep, temp, objs, out, ran, fails>>
Next == AddOpt \/ Opted \/ AddSrc \/ Start \/ Begin \/ DoCpp \/ DoTr \/ DoObj \/ NextSrc \/ Finish \/ DoLd \/ DoExe \/ Emit
Spec == Init /\ [][Next]_vars

(* ---- checked on the model itself ---- *)
\* a run that ends well leaves nothing in between, and made what its options ask for
Clean == st = "good" => /\ temp = None
                        /\ (Links => Exe \in DOMAIN keep) /\ (E => keep = None)
                        /\ (~Links /\ ~E => Cardinality(DOMAIN keep) = Cardinality({k \in 1..Len(srcs) : srcs[k].k = "cmm" \/ (srcs[k].k \in {"s", "c"} /\ ~S)}))
\* a pass that fails is the last one
Stops == st = "bad" => fails # ""
=============================================================================
