------------------------------- MODULE CEnv -------------------------------
(***************************************************************************)
(* Environment, current directory and arguments of a program translated to *)
(* C.  m is the environment as a map, cwd the current directory, held the  *)
(* strings the program keeps from earlier calls.                           *)
(***************************************************************************)
EXTENDS Trace, Paths

VARIABLES m, cwd, held
vars == <<h, n, m, cwd, held>>

Eq == 61
RECURSIVE Find(_, _)
Find(s, i) == IF i > Len(s) THEN 0 ELSE IF s[i] = Eq THEN i ELSE Find(s, i + 1)
Name(s) == SubSeq(s, 1, Find(s, 1) - 1)
Value(s) == SubSeq(s, Find(s, 1) + 1, Len(s))
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Map(l) == [k \in {Name(l[i]) : i \in 1..Len(l)} |-> Value(l[CHOOSE i \in 1..Len(l) : Name(l[i]) = k])]
Holds(env) == /\ Len(env) = Cardinality(DOMAIN m')
              /\ \A k \in DOMAIN m' : \E i \in 1..Len(env) : env[i] = k \o <<Eq>> \o m'[k]

D == H[h].dirs
IsFile(p) == LET l == Lexical(Full(cwd, p), <<>>) IN DirThere(D, cwd, p) /\ \E i \in 1..Len(H[h].fils) : H[h].fils[i] = l
\* what the last component names is there; nothing is said about files written as directories and about the empty path
There(p) == p # <<>> /\ (IsDir(D, cwd, p) \/ (IsFile(p) /\ p[Len(p)] # Slash /\ p[Len(p)] # 46))
Same == m' = m /\ cwd' = cwd
Get(e, x) == e.null = (x \notin DOMAIN m) /\ (~e.null => e.str = m[x])

Do(e) ==
  \/ e.f = "main" /\ Same /\ held' = held /\ e.argc = Len(H[h].args) /\ e.args = H[h].args /\ Holds(e.envp)
  \/ e.f = "getEnv" /\ Same /\ held' = held /\ Get(e, e.name)
  \/ e.f = "hold" /\ Same /\ Get(e, e.name) /\ held' = (IF e.null THEN held ELSE Put(held, e.k, m[e.name]))
  \/ e.f = "held" /\ Same /\ held' = held /\ ~e.null /\ e.str = held[e.k]
  \/ /\ e.f = "setEnv" /\ held' = held /\ cwd' = cwd
     /\ IF e.name = <<>> \/ Find(e.name, 1) > 0 THEN e.v = 1 /\ m' = m
        ELSE e.v = 0 /\ m' = (IF e.name \in DOMAIN m /\ ~e.ow THEN m ELSE Put(m, e.name, e.value))
  \/ /\ e.f = "putEnv" /\ held' = held /\ cwd' = cwd
     /\ IF Find(e.str, 1) < 2 THEN e.v = 1 /\ m' = m ELSE e.v = 0 /\ m' = Put(m, Name(e.str), Value(e.str))
  \/ e.f = "unsetEnv" /\ held' = held /\ cwd' = cwd /\ e.v = 0 /\ m' = Del(m, e.name)
  \/ e.f = "alias" /\ held' = held /\ cwd' = cwd /\ e.v = 0 /\ e.name \in DOMAIN m /\ m' = Put(m, e.to, m[e.name])
  \/ e.f = "getWd" /\ Same /\ held' = held /\ ~e.null /\ e.str = cwd
  \/ /\ e.f = "absPath" /\ Same /\ held' = held /\ e.tail /\ e.v \in {0, 1}
     /\ LET p == Norm(cwd, e.path) IN
        IF e.v = 0 THEN DirThere(D, cwd, e.path) /\ Len(p) < e.size /\ e.str = p
        ELSE ~There(e.path) \/ Len(p) >= e.size
  \/ /\ e.f = "chDir" /\ held' = held /\ m' = m /\ e.v \in {0, 1}
     /\ IF e.v = 0 THEN IsDir(D, cwd, e.path) /\ cwd' = Norm(cwd, e.path)
        ELSE (~IsDir(D, cwd, e.path) \/ e.path = <<>>) /\ cwd' = cwd

Init == TInit /\ m = Map(H[h].envp) /\ cwd = H[h].wd /\ held = [x \in {} |-> <<>>]
Next == More /\ (LET e == Ev IN Do(e) /\ Holds(e.env)) /\ Take
Spec == Init /\ [][Next]_vars
=============================================================================
