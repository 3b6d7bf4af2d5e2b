------------------------------ MODULE Units ------------------------------
(***************************************************************************)
(* Separate compilation: how the functions and variables of a program may  *)
(* be distributed over units, which of them may be private, how they may   *)
(* be spelled, and in which order they may be declared and defined; and    *)
(* what the linker makes of it.  Every behaviour is one way to split one   *)
(* of the programs given in IOEnv.SHAPES, a sequence of sequences of items *)
(* [k |-> "f" function / "v" variable / "x" external, init, uses, main].   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Shapes == JsonDeserialize(IOEnv.SHAPES)
MaxUnits == 3

VARIABLES p, nu, at, pub, sp, units, verdict, phase,
          see,          \* the units in which an item is visible
          need          \* the items that are visible in a unit
vars == <<p, nu, at, pub, sp, units, verdict, phase, see, need>>

It == Shapes[p]
N == Len(It)
Items == 1..N
Uses(i) == {It[i].uses[k] : k \in 1..Len(It[i].uses)}
Own(u) == {i \in Items : at[i] = u}
\* the units that mention item i
Users(i) == {at[j] : j \in {j \in Items : i \in Uses(j)}} \ {0}
\* what is visible in unit u
Needed(u) == Own(u) \cup UNION {Uses(j) : j \in Own(u)}

Init == /\ p \in 1..Len(Shapes) /\ nu \in 2..MaxUnits /\ at = <<>> /\ pub = <<>> /\ sp = <<>>
        /\ units = <<>> /\ verdict = "ok" /\ phase = "place" /\ see = <<>> /\ need = <<>>

\* every function and variable gets a unit; 0 is the outside
Place == /\ phase = "place" /\ Len(at) < N
         /\ IF It[Len(at) + 1].k = "x" THEN at' = Append(at, 0) ELSE \E u \in 1..nu : at' = Append(at, u)
         /\ UNCHANGED <<p, nu, pub, sp, units, verdict, phase, see, need>>
Placed == /\ phase = "place" /\ Len(at) = N /\ phase' = "pub" /\ UNCHANGED <<p, nu, at, pub, sp, units, verdict>>
          /\ LET us == [i \in Items |-> Users(i)] IN see' = [i \in Items |-> {at[i]} \cup us[i]]
          /\ need' = [u \in 1..nu |-> Needed(u)]
\* what another unit uses is public
Publish == /\ phase = "pub" /\ Len(pub) < N
           /\ LET i == Len(pub) + 1 IN
              \E b \in BOOLEAN : /\ (It[i].k = "x" \/ It[i].main \/ see[i] # {at[i]}) => b
                                 /\ pub' = Append(pub, b)
           /\ UNCHANGED <<p, nu, at, sp, units, verdict, phase, see, need>>
Published == /\ phase = "pub" /\ Len(pub) = N /\ phase' = "spell" /\ UNCHANGED <<p, nu, at, pub, sp, units, verdict, see, need>>
\* i may be spelled like j: two public names never, two names visible in one unit never
Distinct(i, j) == (pub[i] /\ pub[j]) \/ (see[i] \cap see[j]) # {}
Spell == /\ phase = "spell" /\ Len(sp) < N
         /\ LET i == Len(sp) + 1 IN
            \E n \in {i} \cup (IF pub[i] THEN {} ELSE {n \in Items : n # i /\ ~It[n].main}) :
              \* the name n belongs to the item n, unless that has taken another
              /\ \A j \in 1..i - 1 : sp[j] = n => ~Distinct(i, j)
              /\ n # i => ~Distinct(i, n)
              /\ sp' = Append(sp, n)
         /\ UNCHANGED <<p, nu, at, pub, units, verdict, phase, see, need>>
Spelled == /\ phase = "spell" /\ Len(sp) = N
           /\ phase' = "write" /\ units' = [u \in 1..nu |-> <<>>]
           /\ \/ verdict' = "ok" /\ UNCHANGED <<pub, sp>>
              \* a function that another unit uses is private all the same
              \/ \E i \in Items : /\ It[i].k = "f" /\ ~It[i].main /\ see[i] # {at[i]}
                                  /\ \A j \in Items : j # i /\ sp[j] = sp[i] => ~pub[j]
                                  /\ pub' = [pub EXCEPT ![i] = FALSE] /\ verdict' = "unresolved" /\ UNCHANGED sp
              \* two public functions of one name in different units
              \/ \E i, j \in Items : /\ i < j /\ It[i].k = "f" /\ It[j].k = "f" /\ pub[i] /\ pub[j] /\ ~It[i].main /\ ~It[j].main
                                     /\ see[i] \cap see[j] = {} /\ sp[i] = i /\ sp[j] = j
                                     /\ \A l \in Items : l # j /\ sp[l] = i => see[l] \cap see[j] = {}
                                     /\ verdict' = "twice" /\ sp' = [sp EXCEPT ![j] = i] /\ UNCHANGED pub
           /\ UNCHANGED <<p, nu, at, see, need>>
\* the text of unit u: declarations and definitions, everything declared before its use
Declared(u) == {units[u][k].i : k \in 1..Len(units[u])}
Defined(u) == {units[u][k].i : k \in {k \in 1..Len(units[u]) : units[u][k].def}}
Times(u, i) == Cardinality({k \in 1..Len(units[u]) : units[u][k].i = i /\ ~units[u][k].def})
Now == CHOOSE u \in 1..nu : Own(u) \ Defined(u) # {} /\ \A v \in 1..nu : Own(v) \ Defined(v) # {} => u <= v
Writing == \E u \in 1..nu : Own(u) \ Defined(u) # {}
Write == /\ phase = "write" /\ Writing
         /\ LET u == Now IN
            \E i \in need[u], d \in BOOLEAN :
              /\ IF d THEN i \in Own(u) \ Defined(u) /\ Uses(i) \ {i} \subseteq Declared(u)
                 ELSE /\ Times(u, i) < 1
              /\ units' = [units EXCEPT ![u] = Append(@, [i |-> i, def |-> d])]
         /\ UNCHANGED <<p, nu, at, pub, sp, verdict, phase, see, need>>
\* the order in which the units are linked
Perms == {f \in [1..nu -> 1..nu] : {f[k] : k \in 1..nu} = 1..nu}
Done == /\ phase = "write" /\ ~Writing /\ phase' = "end"
        /\ LET f == RandomElement(Perms) IN PrintT(ToJson([p |-> p, units |-> units, pub |-> pub, sp |-> sp, at |-> at, order |-> f, v |-> verdict]))
        /\ UNCHANGED <<p, nu, at, pub, sp, units, verdict, see, need>>
Next == Place \/ Placed \/ Publish \/ Published \/ Spell \/ Spelled \/ Write \/ Done
Spec == Init /\ [][Next]_vars

(* ---- linking: what the spelling n means in unit u ---- *)
Local(u, n) == {i \in Items : at[i] = u /\ sp[i] = n}
Global(n) == {i \in Items : pub[i] /\ sp[i] = n}
Means(u, n) == IF Local(u, n) # {} THEN Local(u, n) ELSE Global(n)
Linked == phase = "end" =>
          CASE verdict = "ok" -> /\ \A u \in 1..nu : \A i \in Own(u) : \A j \in Uses(i) : Means(u, sp[j]) = {j}
                                 /\ \A i, j \in Items : pub[i] /\ pub[j] /\ i # j => sp[i] # sp[j]
            [] verdict = "unresolved" -> \E u \in 1..nu : \E i \in Own(u) : \E j \in Uses(i) : Means(u, sp[j]) = {}
            [] verdict = "twice" -> \E n \in Items : Cardinality(Global(n)) > 1
=============================================================================
