------------------------------- MODULE Data -------------------------------
(***************************************************************************)
(* What a global declaration leaves in memory before the program starts.   *)
(*                                                                         *)
(* An initialiser is a tree; Mean(type, tree) is the value the variable    *)
(* holds: a constant, zero (0, false, null), or a reference to a new       *)
(* object whose cells are values again.  The machine lays declarations out *)
(* one by one: mem is the memory so far (a sequence of objects), var the   *)
(* values of the variables; objects of different declarations, elements    *)
(* and fields are different objects.                                       *)
(*                                                                         *)
(* Constants are leaves <<"c", n>>, numbered per declaration; the program  *)
(* chooses their values.                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

VARIABLES decl, mem, var, todo
vars == <<decl, mem, var, todo>>

Basic == {"int", "char", "boolean"}
Fields(s) == CASE s = "S1" -> <<<<"int", 0>>, <<"char", 0>>, <<"S1", 0>>, <<"char", 1>>, <<"boolean", 0>>, <<"int", 1>>>>
               [] s = "S2" -> <<<<"char", 0>>>>
               [] s = "S3" -> <<<<"boolean", 2>>, <<"S2", 0>>, <<"char", 1>>, <<"int", 0>>, <<"S1", 1>>>>
Structs == {"S1", "S2", "S3"}
Bases == Basic \cup Structs

Wide == IOEnv.WIDE = "yes"
I(k, n, sub) == [k |-> k, n |-> n, sub |-> sub]
Const == I("const", <<>>, <<>>)
Null == I("null", <<>>, <<>>)
None == I("none", <<>>, <<>>)
Strs == {I("str", <<j>>, <<>>) : j \in {0, 1, 3, 4}}
Sizes == {1, 2, 5, 40}

\* initialisers of a structure: every field has exactly one
FieldInits(f) == IF f[1] \in Structs /\ f[2] = 0 THEN {Null}
                 ELSE IF f[2] = 0 THEN {Const}
                 ELSE IF f[1] = "char" /\ f[2] = 1 THEN {Null} \cup Strs
                 ELSE {Null}
RECURSIVE Product(_, _)
Product(fs, j) == IF j > Len(fs) THEN {<<>>} ELSE {<<x>> \o y : x \in FieldInits(fs[j]), y \in Product(fs, j + 1)}
StructInits(s) == {Null} \cup {I("struct", <<>>, q) : q \in Product(Fields(s), 1)}

Lists(el, few) == {I("list", <<>>, <<a>>) : a \in el} \cup {I("list", <<>>, <<a, b>>) : a \in few, b \in el}
                  \cup {I("list", <<>>, <<a, b>>) : a \in el, b \in few} \cup {I("list", <<>>, <<a, b, a>>) : a \in few, b \in few}
Arrays(d) == {I("array", <<a>>, <<>>) : a \in Sizes}
             \cup (IF d < 2 THEN {} ELSE {I("array", <<a, b>>, <<>>) : a \in {1, 3}, b \in {1, 2, 5}})
             \cup (IF d < 3 THEN {} ELSE {I("array", <<2, b, 3>>, <<>>) : b \in {1, 2}})
RECURSIVE Inits(_, _)
Inits(b, d) ==
  IF d = 0 THEN IF b \in Basic THEN {Const} ELSE StructInits(b)
  ELSE LET el == Inits(b, d - 1)
           few == CASE d = 1 /\ b \in Basic -> {Const}
                    [] d = 1 -> {Null} \cup {CHOOSE x \in el : x.k = "struct"}
                    [] OTHER -> {Null, I("array", <<2>>, <<>>), I("list", <<>>, <<IF b \in Basic /\ d = 2 THEN Const ELSE Null>>)}
                                \cup (IF b = "char" /\ d = 2 THEN {I("str", <<2>>, <<>>)} ELSE {})
       IN {Null} \cup Arrays(d) \cup Lists(el, few)
          \cup (IF b \in Basic /\ d = 1 THEN {I("list", <<>>, [j \in 1..n |-> Const]) : n \in {3, 4, 5, 17}} ELSE {})
          \cup (IF b = "char" /\ d = 1 THEN Strs ELSE {})

Types == {<<b, d>> : b \in Bases, d \in 0..3} \ (IF Wide THEN {} ELSE {<<b, 3>> : b \in {"boolean", "S1", "S3"}})

(* ---- the meaning ---- *)
Zero == <<"z">>
RECURSIVE Leaves(_)
RECURSIVE LeafSum(_, _)
Leaves(x) == IF x.k = "const" THEN 1 ELSE IF x.k = "str" THEN x.n[1] ELSE LeafSum(x.sub, 1)
LeafSum(q, j) == IF j > Len(q) THEN 0 ELSE Leaves(q[j]) + LeafSum(q, j + 1)

\* Put(m, t, x, c): <<memory, value>> after x of type t, whose constants are numbered from c, is laid out in m
RECURSIVE Put(_, _, _, _), PutAll(_, _, _, _, _), Room(_, _, _)
ElemT(t, j) == IF t[2] > 0 THEN <<t[1], t[2] - 1>> ELSE Fields(t[1])[j]
\* elements j.. of q into memory m: <<memory, values>>
PutAll(m, t, q, j, c) ==
  IF j > Len(q) THEN <<m, <<>>>>
  ELSE LET a == Put(m, ElemT(t, j), q[j], c)
           r == PutAll(a[1], t, q, j + 1, c + Leaves(q[j]))
       IN <<r[1], <<a[2]>> \o r[2]>>
\* array(n1, n2, ...)
Room(m, n, t) ==
  IF Len(n) = 1 THEN LET o == [t |-> t, c |-> [j \in 1..n[1] |-> Zero]] IN <<Append(m, o), <<"r", Len(m) + 1>>>>
  ELSE LET RECURSIVE Sub(_, _)
           Sub(mm, j) == IF j > n[1] THEN <<mm, <<>>>>
                         ELSE LET a == Room(mm, Tail(n), <<t[1], t[2] - 1>>)
                                  r == Sub(a[1], j + 1)
                              IN <<r[1], <<a[2]>> \o r[2]>>
           s == Sub(m, 1)
       IN <<Append(s[1], [t |-> t, c |-> s[2]]), <<"r", Len(s[1]) + 1>>>>
Put(m, t, x, c) ==
  CASE x.k = "const" -> <<m, <<"c", c>>>>
    [] x.k \in {"null", "none"} -> <<m, Zero>>
    [] x.k = "str" -> <<Append(m, [t |-> <<"char", 1, "str">>,
                                    c |-> [j \in 1..x.n[1] + 1 |-> IF j > x.n[1] THEN Zero ELSE <<"c", c + j - 1>>]]),
                        <<"r", Len(m) + 1>>>>
    [] x.k = "array" -> Room(m, x.n, t)
    [] x.k \in {"list", "struct"} ->
         LET a == PutAll(m, t, x.sub, 1, c) IN
         <<Append(a[1], [t |-> t, c |-> a[2]]), <<"r", Len(a[1]) + 1>>>>

Mine(t) == LET n == CHOOSE j \in 1..7 : <<"int", "char", "boolean", "S1", "S2", "S3", "">>[j] = t[1] IN (n + t[2]) % 8 = atoi(IOEnv.PART)
Init == /\ mem = <<>> /\ var = <<>> /\ decl = <<>>
        /\ todo \in {<<t, x>> : t \in {y \in Types : Mine(y)}, x \in {None}}
            \cup UNION {{<<t, x>> : x \in Inits(t[1], t[2])} : t \in {y \in Types : Mine(y)}}
Lay == /\ todo # <<>>
       /\ LET a == Put(mem, todo[1], todo[2], 0) IN
          /\ mem' = a[1]
          /\ var' = Append(var, a[2])
          /\ decl' = Append(decl, todo)
       /\ todo' = <<>>
Next == Lay
Spec == Init /\ [][Next]_vars

\* every object is referred to from exactly one place, cells have the number their type demands
Refs(c) == {j \in 1..Len(c) : c[j][1] = "r"}
Owners(o) == {<<0, j>> : j \in {y \in Refs(var) : var[y][2] = o}}
             \cup UNION {{<<i, j>> : j \in {y \in Refs(mem[i].c) : mem[i].c[y][2] = o}} : i \in 1..Len(mem)}
Sane == /\ \A o \in 1..Len(mem) : Cardinality(Owners(o)) = 1
        /\ \A o \in 1..Len(mem) : mem[o].t[2] = 0 => Len(mem[o].c) = Len(Fields(mem[o].t[1]))
        /\ \A o \in 1..Len(mem) : Len(mem[o].c) > 0
Report == decl = <<>> \/ PrintT(ToJson([t |-> decl[1][1], x |-> decl[1][2], m |-> mem, v |-> var[1]]))
===========================================================================
