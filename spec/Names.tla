------------------------------ MODULE Names ------------------------------
(***************************************************************************)
(* What names mean.  The state is what has been declared so far: the       *)
(* global entities G, the function being defined with its parameters P     *)
(* and the open blocks S with their local variables.  An event is one      *)
(* declaration or one use of a name; Bad(e) says that the text of e has to *)
(* be rejected, Act(e) what it declares, Res(e) which declaration a use    *)
(* denotes.  A history consists of valid events and, possibly, a bad last  *)
(* one.  Types are base types or names of structures.                      *)
(*                                                                         *)
(* Names from Pool serve for variables, functions, structures, fields,     *)
(* parameters alike, so that every two of them meet.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Pool == IF IOEnv.NPOOL = "2" THEN {"a", "b"} ELSE {"a", "b", "c"}
MaxLen == atoi(IOEnv.MAXLEN)
MinLen == atoi(IOEnv.MINLEN)
Small == IOEnv.LISTS = "small"      \* fewer signatures
Base == {"int", "char", "boolean"}
Types == Base \cup Pool

VARIABLES G, F, P, S, H, T, cat, L, st
vars == <<G, F, P, S, H, T, cat, L, st>>

None == [n |-> "", k |-> "none", t |-> "", pub |-> FALSE, ps |-> <<>>, at |-> 0, sub |-> 0]
Ran(s) == {s[i] : i \in 1..Len(s)}
Dup(s) == Cardinality(Ran(s)) < Len(s)
Names_(ps) == [i \in 1..Len(ps) |-> ps[i].n]
Tys(ps) == [i \in 1..Len(ps) |-> ps[i].t]
Now == Len(H) + 1

(* ---- what is visible ---- *)
Glob(n) == IF \E i \in 1..Len(G) : G[i].n = n
           THEN G[CHOOSE i \in 1..Len(G) : G[i].n = n] ELSE None
IsStruct(n) == Glob(n).k \in {"struct", "opaque"}
IsType(t) == t \in Base \/ IsStruct(t)
Locals == [i \in 1..Len(S) |-> Ran(S[i].vs)]
Local(n) == IF \E i \in 1..Len(S) : \E v \in Locals[i] : v.n = n
            THEN CHOOSE v \in UNION Ran(Locals) : v.n = n ELSE None
Param(n) == IF \E i \in 1..Len(P) : P[i].n = n
            THEN P[CHOOSE i \in 1..Len(P) : P[i].n = n] ELSE None
\* the declaration a use of n denotes
Find(n) == IF F = 0 THEN None
           ELSE IF Local(n) # None THEN Local(n)
           ELSE IF Param(n) # None THEN Param(n)
           ELSE IF IsStruct(n) THEN None ELSE Glob(n)
IsVar(x) == x.k \in {"comm", "gvar", "loc", "prm"}
IsFun(x) == x.k \in {"proto", "func"}

(* ---- what is wrong with an event ---- *)
BadLocal(e) == ~IsType(e.t) \/ IsStruct(e.n) \/ Local(e.n) # None \/ Param(e.n) # None
BadParams(e) ==
  \/ Dup(Names_(e.ps))
  \/ \E i \in 1..Len(e.ps) : ~IsType(e.ps[i].t) \/ IsStruct(e.ps[i].n)
Bad(e) ==
  LET g == Glob(e.n) x == Find(e.n) IN
  CASE e.op = "gv" -> \/ ~IsType(e.t) \/ IsStruct(e.n) \/ IsFun(g)
                      \/ (IsVar(g) /\ (g.t # e.t \/ g.pub # e.pub \/ (e.init /\ g.k = "gvar")))
    [] e.op \in {"fn", "pr"} ->
         \/ (e.t # "void" /\ ~IsType(e.t))
         \/ IsStruct(e.n) \/ IsVar(g) \/ BadParams(e)
         \/ (IsFun(g) /\ (g.t # e.t \/ g.pub # e.pub \/ Tys(g.ps) # Tys(e.ps)
                          \/ (e.op = "fn" /\ g.k = "func")))
    [] e.op = "st" -> \/ e.pub \/ g # None
                      \/ Dup(Names_(e.ps))
                      \/ \E i \in 1..Len(e.ps) : \/ ~(IsType(e.ps[i].t) \/ e.ps[i].t = e.n)
                                                 \/ IsStruct(e.ps[i].n) \/ e.ps[i].n = e.n
    [] e.op = "op" -> e.pub \/ g # None
    [] e.op \in {"lv", "fo"} -> BadLocal(e)
    [] e.op \in {"us", "as"} -> ~IsVar(x) \/ (x.t # e.t /\ ~(e.op = "us" /\ e.t = "int" /\ x.t = "char")
                                                              /\ ~(e.op = "as" /\ e.t = "char" /\ x.t = "int"))
    [] e.op = "fd" -> \/ ~IsVar(x) \/ x.t \in Base \/ ~IsType(x.t) \/ Glob(x.t).k = "opaque"
                      \/ \E f \in {e.f, e.g} : f \notin Ran(Names_(Glob(x.t).ps))
    [] e.op = "ca" -> \/ ~IsFun(x)
                      \/ Len(x.ps) # e.cnt
                      \/ (e.t = "int" /\ x.t \notin {"int", "char"})
    [] OTHER -> FALSE
\* neither good nor bad: not used
Skip(e) ==
  LET x == Find(e.n) IN
  CASE e.op = "fd" -> /\ IsVar(x) /\ IsStruct(x.t)
                      /\ \E i \in 1..Len(Glob(x.t).ps) : Glob(x.t).ps[i].n \in {e.f, e.g} /\ Glob(x.t).ps[i].t \notin Base
    [] e.op = "ca" -> IsFun(x) /\ \E i \in 1..Len(x.ps) : x.ps[i].t \notin Base
    [] OTHER -> FALSE

(* ---- what it denotes: position of the declaration and number within it ---- *)
Res(e) ==
  LET x == Find(e.n) IN
  IF e.op \in {"us", "as", "ca"} THEN <<x.at, x.sub>>
  ELSE IF e.op = "fd" /\ IsVar(x) /\ IsStruct(x.t)
  THEN LET s == Glob(x.t)
           ix(f) == IF f \in Ran(Names_(s.ps)) THEN CHOOSE i \in 1..Len(s.ps) : s.ps[i].n = f ELSE 0
       IN <<x.at, x.sub, s.at, ix(e.f), ix(e.g)>>
  ELSE <<Glob(e.n).at, 0>>

(* ---- the events ---- *)
E0 == [op |-> "", n |-> "", t |-> "", pub |-> FALSE, init |-> FALSE, ps |-> <<>>, f |-> "", g |-> "", cnt |-> 0]
Sig(n, t) == [n |-> n, t |-> t]
ParamLists ==
  {<<>>} \cup {<<Sig(n, t)>> : n \in Pool, t \in Types}
         \cup {<<Sig(n, t), Sig(m, u)>> : n \in Pool, t \in IF Small THEN {"int"} ELSE Types,
                                         m \in Pool, u \in IF Small THEN {"char"} ELSE {"int", "char"}}
FieldLists ==
  {<<Sig(n, t)>> : n \in Pool, t \in Types}
  \cup {<<Sig(n, t), Sig(m, u)>> : n \in Pool, m \in Pool, t \in IF Small THEN {"int"} ELSE {"int", "char"},
                                 u \in IF Small THEN {"char"} ELSE Types}
Events(c) ==
  CASE c = "gv" -> {[E0 EXCEPT !.op = c, !.n = n, !.t = t, !.pub = p, !.init = i] :
                     n \in Pool, t \in Types, p \in BOOLEAN, i \in BOOLEAN}
    [] c = "gr" -> {[E0 EXCEPT !.op = "gv", !.n = G[j].n, !.t = G[j].t, !.pub = G[j].pub, !.init = i] :
                     j \in {k \in 1..Len(G) : IsVar(G[k])}, i \in BOOLEAN}
    [] c \in {"fn", "pr"} -> {[E0 EXCEPT !.op = c, !.n = n, !.t = t, !.pub = p, !.ps = l] :
                     n \in Pool, t \in (IF Small THEN {"int", "void"} ELSE {"int", "char", "void"}) \cup Pool, p \in BOOLEAN, l \in {L}}
    \* the same signature again, with other names
    [] c = "fr" -> {[E0 EXCEPT !.op = o, !.n = G[j].n, !.t = G[j].t, !.pub = G[j].pub, !.ps = l] :
                     o \in {"fn", "pr"}, j \in {k \in 1..Len(G) : IsFun(G[k])}, l \in {L}}
    [] c = "st" -> {[E0 EXCEPT !.op = c, !.n = n, !.pub = p, !.ps = l] :
                     n \in Pool, p \in BOOLEAN, l \in {L}}
    [] c = "op" -> {[E0 EXCEPT !.op = c, !.n = n, !.pub = p] : n \in Pool, p \in BOOLEAN}
    [] c = "lv" -> {[E0 EXCEPT !.op = c, !.n = n, !.t = t, !.init = i] : n \in Pool, t \in Types, i \in BOOLEAN}
    [] c = "fo" -> {[E0 EXCEPT !.op = c, !.n = n, !.t = "int"] : n \in Pool}
    [] c \in {"us", "as"} -> {[E0 EXCEPT !.op = c, !.n = n, !.t = t] : n \in Pool, t \in Base}
    [] c = "fd" -> {[E0 EXCEPT !.op = c, !.n = n, !.f = f, !.g = g] : n \in Pool, f \in Pool, g \in Pool}
    [] c = "ca" -> {[E0 EXCEPT !.op = c, !.n = n, !.cnt = k, !.t = t] : n \in Pool, k \in 0..2, t \in {"int", ""}}
    [] OTHER -> {[E0 EXCEPT !.op = c]}

GCats == {"gv", "gr", "fn", "pr", "fr", "fr", "st", "op"}
LCats == {"lv", "fo", "us", "as", "fd", "ca", "bo"}
Cats == IF F = 0 THEN GCats
        ELSE LCats \cup (IF Len(S) > 1 THEN {"cl"} ELSE {"en"})

(* ---- what it does ---- *)
Ent(e, k) == [n |-> e.n, k |-> k, t |-> e.t, pub |-> e.pub, ps |-> e.ps, at |-> Now, sub |-> 0]
Index(n) == CHOOSE i \in 1..Len(G) : G[i].n = n
PutG(e, k) == IF Glob(e.n) = None THEN Append(G, Ent(e, k))
              ELSE IF k \in {"comm", "proto"} THEN G
              ELSE [G EXCEPT ![Index(e.n)].k = k]
Loc(e) == [None EXCEPT !.n = e.n, !.k = "loc", !.t = e.t, !.at = Now]
Blk == [vs |-> <<>>]
Act(e) ==
  /\ G' = CASE e.op = "gv" -> PutG(e, IF e.init THEN "gvar" ELSE "comm")
            [] e.op = "fn" -> PutG(e, "func")
            [] e.op = "pr" -> PutG(e, "proto")
            [] e.op = "st" -> PutG(e, "struct")
            [] e.op = "op" -> PutG(e, "opaque")
            [] OTHER -> G
  /\ F' = IF e.op = "fn" THEN Now ELSE IF e.op = "en" THEN 0 ELSE F
  /\ P' = IF e.op = "fn" THEN [i \in 1..Len(e.ps) |-> [None EXCEPT !.n = e.ps[i].n, !.k = "prm", !.t = e.ps[i].t,
                                                       !.at = Now, !.sub = i]]
          ELSE IF e.op = "en" THEN <<>> ELSE P
  /\ S' = CASE e.op = "fn" -> <<Blk>>
            [] e.op = "en" -> <<>>
            [] e.op = "bo" -> Append(S, Blk)
            [] e.op = "fo" -> Append(S, [vs |-> <<Loc(e)>>])
            [] e.op = "cl" -> SubSeq(S, 1, Len(S) - 1)
            [] e.op = "lv" -> [S EXCEPT ![Len(S)].vs = Append(S[Len(S)].vs, Loc(e))]
            [] OTHER -> S
  /\ H' = Append(H, [e |-> e, r |-> Res(e)])

Init == /\ G = <<>> /\ F = 0 /\ P = <<>> /\ S = <<>> /\ H = <<>>
        /\ T \in MinLen..MaxLen
        /\ cat = "" /\ L = <<>> /\ st = "pick"
Pick == /\ st = "pick" /\ Len(H) < T
        /\ cat' \in Cats
        /\ st' = "list"
        /\ UNCHANGED <<G, F, P, S, H, T, L>>
List == /\ st = "list"
        /\ L' \in IF cat \in {"fn", "pr", "fr"} THEN ParamLists ELSE IF cat = "st" THEN FieldLists ELSE {<<>>}
        /\ st' = "do"
        /\ UNCHANGED <<G, F, P, S, H, T, cat>>
Good == /\ st = "do"
        /\ \E e \in Events(cat) : ~Skip(e) /\ ~Bad(e) /\ Act(e)
        /\ st' = "pick"
        /\ UNCHANGED <<T, cat, L>>
Err == /\ st = "do" /\ Len(H) = T - 1
       /\ \E e \in Events(cat) : (~Skip(e) /\ Bad(e)) = TRUE /\ H' = Append(H, [e |-> e, r |-> Res(e)])
       /\ st' = "bad"
       /\ UNCHANGED <<G, F, P, S, T, cat, L>>
Again == /\ st = "do" /\ Len(H) < T - 1
         /\ (~ \E e \in Events(cat) : ~Skip(e) /\ ~Bad(e)) = TRUE
         /\ st' = "pick"
         /\ UNCHANGED <<G, F, P, S, H, T, cat, L>>
Full == /\ st = "pick" /\ Len(H) = T
        /\ st' = "ok"
        /\ UNCHANGED <<G, F, P, S, H, T, cat, L>>
Emit == /\ st \in {"ok", "bad"}
        /\ PrintT(ToJson([h |-> H, v |-> st]))
        /\ st' = "end"
        /\ UNCHANGED <<G, F, P, S, H, T, cat, L>>
Next == Pick \/ List \/ Good \/ Again \/ Err \/ Full \/ Emit
Spec == Init /\ [][Next]_vars

(* ---- checked on the model itself ---- *)
\* no two visible declarations of one scope share a name; structure names are unique altogether
Unique ==
  /\ \A i, j \in 1..Len(G) : i # j => G[i].n # G[j].n
  /\ ~Dup(Names_(P))
  /\ \A i, j \in 1..Len(S) : \A a \in 1..Len(S[i].vs), b \in 1..Len(S[j].vs) :
        <<i, a>> # <<j, b>> => S[i].vs[a].n # S[j].vs[b].n
  /\ \A n \in Pool : IsStruct(n) => Local(n) = None /\ Param(n) = None
\* every use of a history denotes a declaration made before it (or at it)
Backward == \A i \in 1..Len(H) : H[i].r[1] <= i
=============================================================================
