------------------------------- MODULE Env -------------------------------
(***************************************************************************)
(* Environment variables and the current directory of a TaC program.       *)
(* A history starts from the strings the program was given (H[h].envp) in  *)
(* a file system with directories H[h].dirs; m is the environment as a map *)
(* from names to values.                                                   *)
(***************************************************************************)
EXTENDS Trace, Paths

VARIABLES m
vars == <<h, n, m>>

Eq == 61
PWD == <<80, 87, 68>>
RECURSIVE Find(_, _)
Find(s, i) == IF i > Len(s) THEN 0 ELSE IF s[i] = Eq THEN i ELSE Find(s, i + 1)
Name(s) == SubSeq(s, 1, Find(s, 1) - 1)
Value(s) == SubSeq(s, Find(s, 1) + 1, Len(s))
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Of(l) == [k \in {Name(l[i]) : i \in 1..Len(l)} |-> Value(l[CHOOSE i \in 1..Len(l) : Name(l[i]) = k])]

\* the array environ holds exactly the variables, once each
Holds(env) == /\ Len(env) = Cardinality(DOMAIN m')
              /\ \A k \in DOMAIN m' : \E i \in 1..Len(env) : env[i] = k \o <<Eq>> \o m'[k]

Wd == IF PWD \in DOMAIN m THEN m[PWD] ELSE <<Slash>>
D == H[h].dirs
Resolves(e, size) ==
  IF e.v = 0 THEN DirThere(D, Wd, e.path) /\ Len(Norm(Wd, e.path)) < size
  ELSE ~DirThere(D, Wd, e.path) \/ RawLen(Wd, e.path) >= size - 1
Same == m' = m

Do(e) ==
  \/ e.f = "init" /\ Same
  \/ /\ e.f = "getEnv" /\ Same
     /\ e.null = (e.name \notin DOMAIN m)
     /\ (~e.null => e.str = m[e.name])
  \/ /\ e.f = "getWd" /\ Same /\ ~e.null /\ e.str = Wd
  \/ /\ e.f = "setEnv"
     /\ IF e.name = <<>> \/ Find(e.name, 1) > 0 THEN e.v = 1 /\ Same
        ELSE /\ e.v = 0
             /\ m' = IF e.name \in DOMAIN m /\ ~e.ow THEN m ELSE Put(m, e.name, e.value)
  \/ /\ e.f = "putEnv"
     /\ IF Find(e.str, 1) < 2 THEN e.v = 1 /\ Same
        ELSE e.v = 0 /\ m' = Put(m, Name(e.str), Value(e.str))
  \/ /\ e.f = "unsetEnv" /\ e.v = 0
     /\ m' = Del(m, e.name)
  \/ /\ e.f = "absPath" /\ Same
     /\ e.v \in {0, 1} /\ Resolves(e, e.size)
     /\ (e.v = 0 => e.str = Norm(Wd, e.path))
  \/ /\ e.f = "chDir"
     /\ e.v \in {0, 1}
     /\ IF e.v = 0 THEN Resolves(e, 80) /\ IsDir(D, Wd, e.path) /\ m' = Put(m, PWD, Norm(Wd, e.path))
        ELSE (Resolves(e, 80) \/ ~IsDir(D, Wd, e.path)) /\ Same

Step(e) == e.st = "ret" /\ ~e.stray /\ Do(e) /\ Holds(e.env) /\ (e.v = 1 => e.errno < 0)

Init == TInit /\ m = Of(H[h].envp)
Next == More /\ (LET e == Ev IN Step(e)) /\ Take
Spec == Init /\ [][Next]_vars
=============================================================================
