------------------------------- MODULE CMem -------------------------------
(***************************************************************************)
(* Dynamically allocated arrays and structures of a program translated to  *)
(* C: every cell keeps the value last written to it.  a maps <<kind, k>>   *)
(* to the cells written so far of the array or structure in variable k.    *)
(* Values are whole numbers, written as the pair <<high 16 bits, low>>     *)
(* where they are integers of the program.                                 *)
(***************************************************************************)
EXTENDS Trace

VARIABLES a, seed, seen
vars == <<h, n, a, seed, seen>>

None == [x \in {} |-> 0]
Set(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
P(e) == <<e.kind, e.k>>
Keep == UNCHANGED <<seed, seen>>

Do(e) ==
  \/ /\ e.f = "alloc" /\ Keep /\ a' = Set(a, P(e), [len |-> e.len, c |-> IF e.zero THEN [i \in 0..e.len - 1 |-> e.nil[i + 1]] ELSE None])
  \/ e.f = "write" /\ Keep /\ P(e) \in DOMAIN a /\ a' = [a EXCEPT ![P(e)].c = Set(@, e.i, e.v)]
  \/ e.f = "read" /\ Keep /\ UNCHANGED a /\ e.v = a[P(e)].c[e.i]
  \/ e.f = "free" /\ Keep /\ a' = Del(a, P(e))
  \* the system may refuse a large block, and nothing else: the program then ends with status 1 and a message
  \/ e.f = "huge" /\ Keep /\ UNCHANGED a /\ e.st = "exit 1" /\ e.said
  \/ e.f = "large" /\ Keep /\ ((e.st = "exit 1" /\ e.said /\ UNCHANGED a) \/ (e.st = "ret" /\ a' = Set(a, P(e), [len |-> e.len, c |-> None])))
  \* the numbers depend on the seed only
  \/ e.f = "srand" /\ UNCHANGED <<a, seen>> /\ seed' = <<e.v, 0>>
  \/ /\ e.f = "rand" /\ UNCHANGED a /\ seed' = <<seed[1], seed[2] + 1>>
     /\ (seed \in DOMAIN seen => seen[seed] = e.v) /\ seen' = Set(seen, seed, e.v)
  \/ e.f = "end" /\ Keep /\ UNCHANGED a /\ e.st = "exit 0"

Init == TInit /\ a = None /\ seed = <<<<0, 1>>, 0>> /\ seen = None
Next == More /\ (LET e == Ev IN Do(e)) /\ Take
Spec == Init /\ [][Next]_vars
=============================================================================
