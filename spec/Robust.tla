------------------------------ MODULE Robust ------------------------------
(***************************************************************************)
(* Texts that try the limits of a translator, and what may become of them. *)
(*                                                                         *)
(* A text is made in three ways:                                           *)
(*  - constructs, each repeated n times, side by side or inside each       *)
(*    other; the machine keeps account of what the text needs of every     *)
(*    table of the translators (names, nodes of the tree, nesting,         *)
(*    operands that wait, spelling).  It ends complete or cut short;       *)
(*  - edits (pieces deleted, doubled, exchanged, replaced, put in, cut     *)
(*    off) of a program known to be valid;                                 *)
(*  - arbitrary bytes after the beginning of each kind of token.           *)
(*                                                                         *)
(* Verdict: "acc" the text is valid and needs little, it must be accepted; *)
(* "rej" it is not complete, it must be rejected; "any" one of the two.    *)
(*                                                                         *)
(* h is the history of what was put in; sort is what comes next ("D"       *)
(* declarations, "S" a statement, "E" an expression, "C" a constant one);  *)
(* need is what the text needs by now, keep the part of it that outlives   *)
(* the declaration it is in; items counts the declarations, ops the opened *)
(* constructs of this one; st is "go" until the verdict.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

VARIABLES h, sort, need, items, ops, st
vars == <<h, sort, need, items, ops, st>>

Mode == IOEnv.MODE                      \* "one": exhaustive, one repeated construct; "sim"; "edit1"; "edits"; "raw"
Part == atoi(IOEnv.PART)
Parts == atoi(IOEnv.PARTS)
Bases == atoi(IOEnv.BASES)              \* number of programs to edit
RawLen == atoi(IOEnv.RAWLEN)

Mults == {1, 2, 3, 10, 21, 64, 122, 123, 124, 125, 126, 127, 128, 129, 200, 255, 256, 257, 498, 499, 500, 501, 502,
          998, 999, 1000, 1001, 2998, 2999, 3000, 3001, 5000, 20000}

\* what one repetition of a construct needs (upper estimates)
N(from, to, names, keeps, nodes, deep, waits, spell) ==
  [from |-> from, to |-> to, names |-> names, keeps |-> keeps, nodes |-> nodes, deep |-> deep, waits |-> waits, spell |-> spell]
Leaf(from, names, keeps, nodes, waits, spell) == N(from, "", names, keeps, nodes, 0, waits, spell)
Table == [
  \* declarations
  globals  |-> Leaf("D", 1, 1, 0, 0, 0),
  protos   |-> Leaf("D", 2, 2, 0, 0, 0),
  funcs    |-> Leaf("D", 2, 2, 0, 0, 0),
  structs  |-> Leaf("D", 2, 2, 0, 0, 0),
  typedefs |-> Leaf("D", 1, 1, 0, 0, 0),
  strings  |-> Leaf("D", 1, 1, 0, 0, 0),
  inits    |-> Leaf("D", 1, 1, 0, 0, 0),
  glist    |-> Leaf("D", 0, 0, 2, 0, 0),
  slist    |-> Leaf("D", 0, 0, 6, 0, 0),
  fields   |-> Leaf("D", 1, 1, 0, 0, 0),
  params   |-> Leaf("D", 1, 1, 0, 0, 0),
  pparams  |-> Leaf("D", 1, 1, 0, 0, 0),
  dims     |-> Leaf("D", 0, 0, 0, 0, 1),
  arrays   |-> Leaf("D", 0, 0, 3, 0, 1),
  name     |-> Leaf("D", 0, 0, 0, 0, 1),
  string   |-> Leaf("D", 0, 0, 0, 0, 1),
  escapes  |-> Leaf("D", 0, 0, 0, 0, 4),
  tailoct  |-> Leaf("D", 0, 0, 0, 0, 1),
  tailhex  |-> Leaf("D", 0, 0, 0, 0, 1),
  tailnl   |-> Leaf("D", 0, 0, 0, 0, 1),
  tailchr  |-> Leaf("D", 0, 0, 0, 0, 1),
  comment  |-> Leaf("D", 0, 0, 0, 0, 0),
  comments |-> Leaf("D", 0, 0, 0, 0, 0),
  stars    |-> Leaf("D", 0, 0, 0, 0, 0),
  blanks   |-> Leaf("D", 0, 0, 0, 0, 0),
  lines    |-> Leaf("D", 0, 0, 0, 0, 0),
  markers  |-> Leaf("D", 0, 0, 0, 0, 0),
  systems  |-> Leaf("D", 0, 0, 0, 0, 0),
  sysdecls |-> Leaf("D", 1, 1, 0, 0, 0),
  file     |-> Leaf("D", 0, 0, 0, 0, 1),
  zeros    |-> Leaf("D", 0, 0, 0, 0, 1),
  hexes    |-> Leaf("D", 0, 0, 0, 0, 1),
  brace    |-> N("D", "C", 0, 0, 2, 1, 0, 1),
  init     |-> N("D", "C", 1, 1, 1, 1, 0, 0),
  body     |-> N("D", "S", 1, 1, 3, 1, 0, 0),
  \* statements
  empty    |-> Leaf("S", 0, 0, 0, 0, 0),
  stmts    |-> Leaf("S", 0, 0, 4, 0, 0),
  calls    |-> Leaf("S", 0, 0, 5, 0, 0),
  locals   |-> Leaf("S", 1, 0, 1, 0, 0),
  linits   |-> Leaf("S", 1, 0, 4, 0, 0),
  args     |-> Leaf("S", 0, 0, 3, 0, 0),
  sstrs    |-> Leaf("S", 0, 0, 4, 0, 0),
  blocks   |-> Leaf("S", 1, 0, 3, 0, 0),
  rets     |-> Leaf("S", 0, 0, 3, 0, 0),
  loops    |-> Leaf("S", 0, 0, 6, 0, 0),
  block    |-> N("S", "S", 0, 0, 2, 1, 0, 0),
  ifs      |-> N("S", "S", 0, 0, 3, 1, 0, 0),
  ifels    |-> N("S", "S", 0, 0, 8, 1, 0, 0),
  elseif   |-> N("S", "S", 0, 0, 10, 1, 0, 0),
  while    |-> N("S", "S", 0, 0, 3, 1, 0, 0),
  do       |-> N("S", "S", 0, 0, 3, 1, 0, 0),
  fori     |-> N("S", "S", 1, 0, 14, 1, 0, 0),
  for      |-> N("S", "S", 0, 0, 14, 1, 0, 0),
  bvar     |-> N("S", "S", 1, 0, 6, 1, 0, 0),
  asg      |-> N("S", "E", 0, 0, 4, 1, 0, 0),
  cond     |-> N("S", "E", 0, 0, 6, 1, 1, 0),
  callst   |-> N("S", "E", 0, 0, 4, 1, 0, 0),
  ret      |-> N("S", "E", 0, 0, 4, 1, 0, 0),
  linit    |-> N("S", "E", 1, 0, 4, 1, 0, 0),
  elem     |-> N("S", "E", 0, 0, 8, 1, 1, 0),
  \* expressions
  one      |-> Leaf("E", 0, 0, 1, 0, 0),
  chain    |-> Leaf("E", 0, 0, 2, 0, 0),
  mixed    |-> Leaf("E", 0, 0, 6, 1, 0),
  dots     |-> Leaf("E", 0, 0, 2, 0, 0),
  ands     |-> Leaf("E", 0, 0, 4, 0, 0),
  commas   |-> Leaf("E", 0, 0, 3, 0, 0),
  paren    |-> N("E", "E", 0, 0, 0, 1, 0, 0),
  neg      |-> N("E", "E", 0, 0, 1, 1, 0, 0),
  plus     |-> N("E", "E", 0, 0, 0, 1, 0, 0),
  bnot     |-> N("E", "E", 0, 0, 1, 1, 0, 0),
  nots     |-> N("E", "E", 0, 0, 3, 3, 0, 0),
  call     |-> N("E", "E", 0, 0, 3, 1, 1, 0),
  index    |-> N("E", "E", 0, 0, 3, 1, 1, 0),
  findex   |-> N("E", "E", 0, 0, 4, 1, 1, 0),
  addr     |-> N("E", "E", 0, 0, 2, 1, 1, 0),
  addl     |-> N("E", "E", 0, 0, 2, 1, 0, 0),
  mulr     |-> N("E", "E", 0, 0, 2, 1, 1, 0),
  divr     |-> N("E", "E", 0, 0, 2, 1, 1, 0),
  shl      |-> N("E", "E", 0, 0, 2, 1, 1, 0),
  cast     |-> N("E", "E", 0, 0, 2, 2, 0, 0),
  bcast    |-> N("E", "E", 0, 0, 2, 2, 0, 0),
  andr     |-> N("E", "E", 0, 0, 4, 2, 1, 0),
  orr      |-> N("E", "E", 0, 0, 4, 2, 1, 0),
  cmpr     |-> N("E", "E", 0, 0, 3, 2, 1, 0),
  set      |-> N("E", "E", 0, 0, 2, 1, 1, 0),
  comma    |-> N("E", "E", 0, 0, 2, 1, 0, 0),
  \* constant expressions
  num      |-> Leaf("C", 0, 0, 1, 0, 0),
  cchain   |-> Leaf("C", 0, 0, 2, 0, 0),
  cparen   |-> N("C", "C", 0, 0, 0, 1, 0, 0),
  cneg     |-> N("C", "C", 0, 0, 1, 1, 0, 0),
  cbnot    |-> N("C", "C", 0, 0, 1, 1, 0, 0),
  caddr    |-> N("C", "C", 0, 0, 2, 1, 1, 0),
  ccast    |-> N("C", "C", 0, 0, 2, 2, 0, 0)]
Names == DOMAIN Table
From(s) == {k \in Names : Table[k].from = s}
Leaves(s) == {k \in From(s) : Table[k].to = ""}
Opens(s) == {k \in From(s) : Table[k].to # ""}

\* what is there in any case
None == [names |-> 20, nodes |-> 8, deep |-> 4, waits |-> 2, spell |-> 4, item |-> 0]
Max(a, b) == IF a > b THEN a ELSE b
Plus(r, k, n) == LET t == Table[k] IN
  [names |-> r.names + n * t.names, nodes |-> r.nodes + n * t.nodes, deep |-> r.deep + n * t.deep,
   waits |-> r.waits + n * t.waits, spell |-> Max(r.spell, n * t.spell), item |-> r.item + n * t.keeps]
\* the end of a declaration gives back its nodes, its nesting and its local names (the names kept so far were counted by all)
Drop(r) == [None EXCEPT !.names = None.names + r.item, !.item = r.item, !.spell = r.spell]
Little(r) == r.names <= 300 /\ r.nodes <= 1500 /\ r.deep <= 300 /\ r.waits <= 9 /\ r.spell <= 100

Put(k, n) == h' = Append(h, <<k, n>>)
\* shortest way down from a sort, used where the history allows only one repeated construct
Way == {"body", "asg", "init", "one", "num"}
Single == Mode = "one"
Repeats == Cardinality({i \in 1..Len(h) : h[i][2] > 1})
Allowed(k, n) ==
  \/ ~Single
  \/ n > 1 /\ Repeats = 0
  \/ n = 1 /\ (k \in Way \/ (Repeats = 1 /\ k = "empty"))

Init ==
  /\ h = <<>> /\ items = 0 /\ ops = 0 /\ need = None
  /\ CASE Mode \in {"one", "sim"} -> sort = "D" /\ st = "go"
       [] Mode \in {"edit1", "edits"} -> sort = "edit" /\ st = "acc"
       [] Mode = "raw" -> sort = "raw" /\ st = "any"

Pick(S) == IF Single THEN S ELSE {RandomElement(S)}
Times == IF Single THEN Mults
         ELSE IF RandomElement(1..3) = 1 THEN {RandomElement(Mults)} ELSE {RandomElement({1, 2, 3, 5, 8})}
Leave ==
  \E k \in Pick(Leaves(sort)), n \in Times :
    /\ Allowed(k, n) /\ Put(k, n)
    /\ need' = Drop(Plus(need, k, n))
    /\ items' = items + 1 /\ ops' = 0 /\ sort' = "D"
    /\ st' = IF st = "go" /\ Little(Plus(need, k, n)) THEN "go" ELSE "big"

Open ==
  /\ ops < (IF Single THEN 3 ELSE 6)
  /\ \E k \in Pick(Opens(sort)), n \in Times :
       /\ Allowed(k, n)
       /\ (k \in {"body", "init", "asg", "cond", "callst", "ret", "linit", "elem"} => n = 1)
       /\ Put(k, n)
       /\ need' = Plus(need, k, n)
       /\ ops' = ops + 1 /\ items' = items /\ sort' = Table[k].to /\ st' = st
Cut == sort # "D" /\ Put("cut", 1) /\ st' = "rej" /\ sort' = "end" /\ UNCHANGED <<need, items, ops>>
Finish == sort = "D" /\ items > 0 /\ st' = (IF st = "go" THEN "acc" ELSE "any") /\ sort' = "end" /\ UNCHANGED <<h, need, items, ops>>

Build ==
  /\ st \in {"go", "big"}
  /\ \/ items < (IF Single THEN 1 ELSE 4) /\ Leave
     \/ items < (IF Single THEN 1 ELSE 4) /\ Opens(sort) # {} /\ Open
     \/ Cut
     \/ Finish

\* edits: position in thousandths of the program
EOps == {"del", "dup", "swap", "rep", "ins", "cut", "move", "trim", "byte", "blank", "run"}
Edit ==
  /\ sort = "edit" /\ Len(h) < (IF Mode = "edit1" THEN 2 ELSE 9)
  /\ IF h = <<>>
     THEN \E b \in (IF Mode = "edit1" THEN {x \in 0..Bases - 1 : x % Parts = Part} ELSE {RandomElement(0..Bases - 1)}) :
            h' = <<<<"base", b>>>> /\ st' = st
     ELSE \E o \in (IF Mode = "edit1" THEN {"del", "dup", "swap", "rep", "ins", "cut"} ELSE {RandomElement(EOps)}),
             p \in (IF Mode = "edit1" THEN 0..249 ELSE {RandomElement(0..999)}) :
            /\ h' = Append(h, <<o, IF Mode = "edit1" THEN 4 * p ELSE p, RandomElement(0..9999), RandomElement(0..9999)>>)
            /\ st' = (IF o = "blank" THEN st ELSE "any")
  /\ UNCHANGED <<sort, need, items, ops>>

Bytes == {0, 1, 9, 10, 12, 13, 26, 27, 32, 34, 35, 39, 42, 46, 47, 48, 57, 92, 97, 120, 123, 125, 127, 128, 192, 227, 255}
Begins == 0..15
Raw ==
  /\ sort = "raw" /\ Len(h) <= RawLen
  /\ IF h = <<>> THEN \E b \in {x \in Begins : x % Parts = Part} : h' = <<<<"begin", b>>>>
     ELSE \E x \in (IF Len(h) = 1 THEN 0..255 ELSE Bytes) : h' = Append(h, <<"raw", x>>)
  /\ UNCHANGED <<sort, need, items, ops, st>>

Next == Build \/ Edit \/ Raw
Spec == Init /\ [][Next]_vars

\* a text that must be accepted is complete and small in every way
Sane == st = "acc" => sort # "end" \/ (Little(need) /\ \A i \in 1..Len(h) : h[i][1] # "cut")
Done == sort = "end" \/ (sort \in {"edit", "raw"} /\ Len(h) > 1)
Report == Done => PrintT(ToJson([h |-> h, v |-> st]))
=============================================================================
