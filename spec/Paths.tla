------------------------------ MODULE Paths ------------------------------
(***************************************************************************)
(* Paths: sequences of bytes, resolved from a current directory.           *)
(***************************************************************************)
EXTENDS Integers, Sequences

Slash == 47
Dot == <<46>>
DotDot == <<46, 46>>

RECURSIVE Split(_, _, _)
\* components of p, without empty ones and "."
Split(p, cur, acc) ==
  LET done == IF cur = <<>> \/ cur = Dot THEN acc ELSE Append(acc, cur) IN
  IF p = <<>> THEN done
  ELSE IF Head(p) = Slash THEN Split(Tail(p), <<>>, done)
  ELSE Split(Tail(p), Append(cur, Head(p)), acc)
Components(p) == Split(p, <<>>, <<>>)

\* the path from the root that p means in the directory wd, as it stands
Full(wd, p) == Components(IF p # <<>> /\ Head(p) = Slash THEN p ELSE wd \o <<Slash>> \o p)

RECURSIVE Lexical(_, _)
\* without ".."
Lexical(c, acc) ==
  IF c = <<>> THEN acc
  ELSE IF Head(c) = DotDot THEN Lexical(Tail(c), IF acc = <<>> THEN acc ELSE SubSeq(acc, 1, Len(acc) - 1))
  ELSE Lexical(Tail(c), Append(acc, Head(c)))

RECURSIVE Join(_)
Join(c) == IF c = <<>> THEN <<>> ELSE <<Slash>> \o Head(c) \o Join(Tail(c))
Norm(wd, p) == LET j == Join(Lexical(Full(wd, p), <<>>)) IN IF j = <<>> THEN <<Slash>> ELSE j

RECURSIVE Walk(_, _, _)
\* whether a walk along c from the directory at passes through directories of D only
Walk(D, c, at) ==
  IF at # <<>> /\ ~\E i \in 1..Len(D) : D[i] = at THEN FALSE
  ELSE IF c = <<>> THEN TRUE
  ELSE Walk(D, Tail(c), IF Head(c) # DotDot THEN Append(at, Head(c)) ELSE IF at = <<>> THEN at ELSE SubSeq(at, 1, Len(at) - 1))

\* the directory the last component of p is in is there
DirThere(D, wd, p) == LET c == Full(wd, p) IN IF c = <<>> THEN TRUE ELSE Walk(D, SubSeq(c, 1, Len(c) - 1), <<>>)
IsDir(D, wd, p) == Walk(D, Full(wd, p), <<>>)
\* bytes the concatenation of p with where it starts from takes
RawLen(wd, p) == Len(p) + (IF p # <<>> /\ Head(p) = Slash THEN 1 ELSE Len(wd) + 1)
=============================================================================
