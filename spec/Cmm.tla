------------------------------- MODULE Cmm -------------------------------
(***************************************************************************)
(* Source-level semantics of C-- as a small-step abstract machine.         *)
(*                                                                         *)
(* A state is a control stack C (what is still to be done), a value stack  *)
(* V, the current activation F (locals and parameters), the global         *)
(* variables G, the heap H of arrays / structures, and the trace ev of     *)
(* observable events.  An observable event is a call of an external        *)
(* function with the values of its arguments; what the external function   *)
(* returns is scripted by the program record.                              *)
(*                                                                         *)
(* Programs are abstract syntax trees given as JSON (see lib/gen.py, which *)
(* prints the same tree as C-- source for the compiler under test).        *)
(*                                                                         *)
(* The language leaves some things open.  A run that reaches one of them   *)
(* ends with st = "unspec": the compilers may do anything with it.         *)
(*   - a negative operand of / or %  (mode 16; truncating in mode 32)      *)
(*   - division by zero, shift counts outside 0 .. width-1                 *)
(*   - reading something never written                                     *)
(*   - an access outside an array, or through null                         *)
(*       (for the checking translator that is a run-time fault: see flt)   *)
(*   - overflow of an arithmetic result compared with 0 by < <= > >=       *)
(*       (mode 16; in mode 32 every overflow)                              *)
(* Operands whose evaluation order matters are kept out by the generator.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, Bitwise, TLC, Json, IOUtils

Progs == JsonDeserialize(IOEnv.PROGS)

VARIABLES pid,   \* which program
          ph,    \* phase: "src", then the phases of the target machine
          C, V,  \* control stack, value stack (cons cells <<top, rest>>)
          F,     \* current activation [l |-> locals, p |-> parameters]
          G, H,  \* globals, heap objects
          ev,    \* observable events so far
          nin,   \* number of scripted inputs consumed
          st,    \* "run", "ok", "unspec", "fault", "bad"
          info,  \* detail of st
          steps  \* step counter

svars == <<C, V, F, G, H, ev, nin, st, info, steps>>

P == Progs[pid]
N(n) == P.nodes[n]

RefBase == 1073741824          \* references are RefBase + object index
Bad     == -2147483647         \* "unspecified" result of an operator
Undef   == -2147483646         \* contents of uninitialised storage
Max32   == 1073741823

Abs(x) == IF x < 0 THEN -x ELSE x
Wrap16(x) == ((x + 32768) % 65536) - 32768
Pow2 == [i \in 0..30 |-> 2^i]

\* Result of an arithmetic operator.  feeds = 1: the value is the operand of an
\* ordered comparison with 0, where an overflow is unspecified; feeds = 2: moreover it
\* is part of a chain of + and -, which may be evaluated in any association
Norm(x, feeds) ==
  IF P.mode = 16 THEN IF x \in -32768..32767 THEN x
                      ELSE IF feeds > 0 THEN Bad ELSE Wrap16(x)
  ELSE IF Abs(x) > Max32 THEN Bad ELSE x

Trunc(a, b) == IF (a < 0) = (b < 0) THEN Abs(a) \div Abs(b)
                                    ELSE -(Abs(a) \div Abs(b))
B2I(b) == IF b THEN 1 ELSE 0

Op2(k, a, b, feeds) ==
  IF a = Undef \/ b = Undef THEN Bad ELSE
  IF P.mode = 16 /\ ((feeds = 2 /\ (Abs(a) > 4000 \/ Abs(b) > 4000))
                     \/ (feeds > 0 /\ k = "sub" /\ b = -32768)) THEN Bad ELSE
  CASE k = "add" -> Norm(a + b, feeds)
    [] k = "sub" -> Norm(a - b, feeds)
    [] k = "lt"  -> B2I(a < b)
    [] k = "eq"  -> B2I(a = b)
    [] k = "ne"  -> B2I(a # b)
    [] k = "and" -> a & b
    [] k = "or"  -> a | b
    [] k = "xor" -> a ^^ b
    [] k = "mul" -> IF P.mode = 16 THEN Norm(a * b, feeds)
                    ELSE IF a = 0 \/ b = 0 THEN 0
                    ELSE IF Abs(b) > Max32 \div Abs(a) THEN Bad ELSE a * b
    [] k = "le"  -> B2I(a <= b)
    [] k = "gt"  -> B2I(a > b)
    [] k = "ge"  -> B2I(a >= b)
    [] k = "div" -> IF b = 0 THEN Bad
                    ELSE IF P.mode = 16 /\ (a < 0 \/ b < 0) THEN Bad
                    ELSE Trunc(a, b)
    [] k = "mod" -> IF b = 0 THEN Bad
                    ELSE IF P.mode = 16 /\ (a < 0 \/ b < 0) THEN Bad
                    ELSE a - b * Trunc(a, b)
    [] k = "shl" -> IF P.mode = 16
                    THEN IF b \notin 0..15 THEN Bad
                         ELSE LET r == Wrap16((a % Pow2[16-b]) * Pow2[b])
                              IN IF feeds > 0 /\ (r \div Pow2[b]) # a
                                 THEN Bad ELSE r
                    ELSE IF b \notin 0..30 THEN Bad
                         ELSE IF a < 0 \/ a > (Max32 \div Pow2[b])
                              THEN Bad ELSE a * Pow2[b]
    [] k = "shr" -> IF P.mode = 16
                    THEN IF b \notin 0..15 THEN Bad ELSE a \div Pow2[b]
                    ELSE IF b \notin 0..30 THEN Bad ELSE a \div Pow2[b]

Op1(k, a, feeds) ==
  IF a = Undef THEN Bad ELSE
  CASE k = "neg"  -> Norm(-a, feeds)
    [] k = "bnot" -> -a - 1
    [] k = "not"  -> 1 - a
    [] k = "chr"  -> a % 256
    [] k = "bool" -> a % 2
    [] k = "ord"  -> a
    [] k = "plus" -> a

---------------------------------------------------------------------------
(* Stacks *)
Top(s)  == s[1]
Pop(s)  == s[2]
Push(x, s) == <<x, s>>
Nil == <<>>

RECURSIVE PushArgs(_, _, _)         \* evaluate the i-th .. last argument
PushArgs(args, i, rest) ==
  IF i > Len(args) THEN rest
  ELSE Push(<<"e", args[i]>>, PushArgs(args, i + 1, rest))

RECURSIVE PushStats(_, _, _)
PushStats(ss, i, rest) ==
  IF i > Len(ss) THEN rest
  ELSE Push(<<"s", ss[i]>>, PushStats(ss, i + 1, rest))

RECURSIVE PopN(_, _)
PopN(s, n) == IF n = 0 THEN s ELSE PopN(Pop(s), n - 1)

RECURSIVE TakeRev(_, _, _)          \* the n topmost values, oldest first
TakeRev(s, n, acc) == IF n = 0 THEN acc
                      ELSE TakeRev(Pop(s), n - 1, <<Top(s)>> \o acc)

RECURSIVE Unwind(_, _)              \* drop control items down to the marker
Unwind(s, tag) == IF Top(s)[1] = tag THEN s ELSE Unwind(Pop(s), tag)

RECURSIVE CStr(_, _)                \* characters of a string up to the NUL
CStr(e, i) == IF i > Len(e) \/ e[i] = Undef THEN <<Bad>>
              ELSE IF e[i] = 0 THEN <<>> ELSE <<e[i]>> \o CStr(e, i + 1)

\* The part of an event that argument a of kind kd contributes
ArgEv(kd, a) ==
  IF kd = "s"
  THEN IF a < RefBase THEN <<Bad>>
       ELSE <<-1>> \o CStr(H[a - RefBase].e, 1)
  ELSE IF a = Undef THEN <<Bad>> ELSE <<a>>

RECURSIVE ArgsEv(_, _, _)
ArgsEv(kds, as, i) ==
  IF i > Len(as) THEN <<>>
  ELSE ArgEv(kds[IF i > Len(kds) THEN Len(kds) ELSE i], as[i])
       \o ArgsEv(kds, as, i + 1)

HasBad(s) == \E i \in 1..Len(s) : s[i] = Bad

---------------------------------------------------------------------------
SInit ==
  /\ pid \in 1..Len(Progs)
  /\ ph = "src"
  /\ C = <<<<"enter", P.main>>, Nil>>
  /\ V = Nil
  /\ F = [l |-> <<>>, p |-> <<>>]
  /\ G = P.glob
  /\ H = P.objs
  /\ ev = <<>> /\ nin = 0 /\ st = "run" /\ info = <<>> /\ steps = 0

Halt(s, i) == /\ st' = s /\ info' = i
              /\ UNCHANGED <<pid, ph, C, V, F, G, H, ev, nin, steps>>

\* Continue with control c and value stack v, nothing else changed
Go(c, v) == /\ C' = c /\ V' = v
            /\ steps' = steps + 1
            /\ UNCHANGED <<pid, ph, F, G, H, ev, nin, st, info>>

PushV(x, n, rest, v) == IF x = Bad THEN Halt("unspec", <<"op", n>>)
                        ELSE Go(rest, Push(x, v))

\* an access at node n through reference r, element i, that must not happen:
\* what = 0 through null, 1 outside the object
Fault(n, r, i) == Halt("fault", <<n, IF r = 0 THEN 0 ELSE 1, i>>)

Eval(n, rest) ==
  LET d == N(n) k == d.k IN
  CASE k = "const" \/ k = "sizeof" -> Go(rest, Push(d.v, V))
    [] k = "loc" -> Go(rest, Push(F.l[d.v], V))
    [] k = "prm" -> Go(rest, Push(F.p[d.v], V))
    [] k = "gl"  -> Go(rest, Push(G[d.v], V))
    [] k = "str" -> Go(rest, Push(RefBase + d.v, V))
    [] k \in {"neg", "bnot", "not", "chr", "bool", "ord", "plus", "dot"} ->
         Go(Push(<<"e", d.a>>, Push(<<"o", n>>, rest)), V)
    [] k = "land" \/ k = "lor" ->
         Go(Push(<<"e", d.a>>, Push(<<"sc", n>>, rest)), V)
    [] k = "comma" ->
         Go(Push(<<"e", d.a>>, Push(<<"pop">>, Push(<<"e", d.b>>, rest))), V)
    [] k = "ass" ->
         LET l == N(d.a) stc == Push(<<"st", n>>, rest) IN
         Go(Push(<<"e", d.b>>,
              CASE l.k = "idx" -> Push(<<"e", l.a>>, Push(<<"e", l.b>>, stc))
                [] l.k = "dot" -> Push(<<"e", l.a>>, stc)
                [] OTHER -> stc), V)
    [] k = "call" ->
         Go(PushArgs(d.args, 1, Push(<<"call", n>>, rest)), V)
    [] OTHER ->       \* binary operators and idx
         Go(Push(<<"e", d.a>>, Push(<<"e", d.b>>, Push(<<"o", n>>, rest))), V)

\* element i of the object referred to by r (0-based); Undef if never written
Elem(r, i) == H[r - RefBase].e[i + 1]
OkAccess(r, i) == r > RefBase /\ i >= 0 /\ i < Len(H[r - RefBase].e)

Apply(n, rest) ==
  LET d == N(n) k == d.k IN
  CASE k = "idx" ->
         LET i == Top(V) r == Top(Pop(V)) IN
         IF i = Undef \/ r = Undef THEN Halt("unspec", <<"undef", n>>)
         ELSE IF OkAccess(r, i) THEN Go(rest, Push(Elem(r, i), PopN(V, 2)))
         ELSE Fault(n, r, i)
    [] k = "dot" ->
         LET r == Top(V) IN
         IF r = Undef THEN Halt("unspec", <<"undef", n>>)
         ELSE IF OkAccess(r, d.v)
         THEN Go(rest, Push(Elem(r, d.v), Pop(V))) ELSE Fault(n, r, 0)
    [] k \in {"neg", "bnot", "not", "chr", "bool", "ord", "plus"} ->
         PushV(Op1(k, Top(V), d.f), n, rest, Pop(V))
    [] OTHER ->
         PushV(Op2(k, Top(Pop(V)), Top(V), d.f), n, rest, PopN(V, 2))

Store(n, rest) ==
  LET d == N(n) l == N(d.a) IN
  CASE l.k = "loc" -> /\ F' = [F EXCEPT !.l[l.v] = Top(V)]
                      /\ C' = rest /\ steps' = steps + 1
                      /\ UNCHANGED <<pid, ph, V, G, H, ev, nin, st, info>>
    [] l.k = "prm" -> /\ F' = [F EXCEPT !.p[l.v] = Top(V)]
                      /\ C' = rest /\ steps' = steps + 1
                      /\ UNCHANGED <<pid, ph, V, G, H, ev, nin, st, info>>
    [] l.k = "gl"  -> /\ G' = [G EXCEPT ![l.v] = Top(V)]
                      /\ C' = rest /\ steps' = steps + 1
                      /\ UNCHANGED <<pid, ph, V, F, H, ev, nin, st, info>>
    [] OTHER ->
         LET isIdx == l.k = "idx"
             i == IF isIdx THEN Top(V) ELSE l.v
             v1 == IF isIdx THEN Pop(V) ELSE V
             r == Top(v1)
             v2 == Pop(v1) IN
         IF i = Undef \/ r = Undef THEN Halt("unspec", <<"undef", n>>)
         ELSE IF ~OkAccess(r, i) THEN Fault(d.a, r, IF isIdx THEN i ELSE 0)
         ELSE /\ H' = [H EXCEPT ![r - RefBase].e[i + 1] = Top(v2)]
              /\ V' = v2 /\ C' = rest /\ steps' = steps + 1
              /\ UNCHANGED <<pid, ph, F, G, ev, nin, st, info>>

\* call of function d.v with the arguments on the value stack
Call(n, rest) ==
  LET d  == N(n)
      f  == P.funcs[d.v]
      na == Len(d.args)
      as == TakeRev(V, na, <<>>)
      v0 == PopN(V, na) IN
  IF f.ext = 0
  THEN /\ C' = Push(<<"s", f.body>>, Push(<<"fend", d.v>>, Push(<<"ret", F>>, rest)))
       /\ V' = v0
       /\ F' = [l |-> [i \in 1..f.nl |-> Undef], p |-> as]
       /\ steps' = steps + 1
       /\ UNCHANGED <<pid, ph, G, H, ev, nin, st, info>>
  ELSE LET e == <<d.v>> \o ArgsEv(f.args, as, 1)
           cnt == (as[1] \div d.u) * d.per IN
       IF HasBad(e) THEN Halt("unspec", <<"arg", n>>)
       ELSE IF f.rk = "m" /\ (as[1] < 0 \/ cnt > 400)
       THEN Halt("unspec", <<"malloc", n>>)
       ELSE /\ ev' = Append(ev, e)
            /\ C' = rest
            \* (rk: "i" scripted input, "m" new object, "a" the arguments of the caller)
            /\ CASE f.rk = "i" -> /\ V' = Push(P.inp[(nin % Len(P.inp)) + 1], v0)
                                  /\ nin' = nin + 1 /\ H' = H
                 [] f.rk = "m" -> /\ H' = Append(H, [e |-> [i \in 1..cnt |-> Undef]])
                                  /\ V' = Push(RefBase + Len(H) + 1, v0)
                                  /\ nin' = nin
                 [] f.rk = "a" -> /\ H' = Append(H, [e |-> F.p])
                                  /\ V' = Push(RefBase + Len(H) + 1, v0)
                                  /\ nin' = nin
                 [] OTHER -> /\ V' = Push(0, v0) /\ nin' = nin /\ H' = H
            /\ steps' = steps + 1
            /\ UNCHANGED <<pid, ph, F, G, st, info>>

\* Statements.  "loop" is the marker continue jumps to; it is also what is
\* reached when a loop body ends.
Exec(n, rest) ==
  LET d == N(n) k == d.k IN
  CASE k = "exp"  -> Go(Push(<<"e", d.a>>, Push(<<"pop">>, rest)), V)
    [] k = "blk"  -> Go(PushStats(d.args, 1, rest), V)
    [] k = "nop"  -> Go(rest, V)
    [] k = "if"   -> Go(Push(<<"e", d.a>>, Push(<<"br", n>>, rest)), V)
    [] k = "while" -> Go(Push(<<"e", d.a>>, Push(<<"wt", n>>, rest)), V)
    [] k = "for"  ->   \* init; cond(0: none); body; reinit(0: none)
         LET tst == IF d.a = 0 THEN Push(<<"s", d.b>>, Push(<<"loop", n>>, rest))
                    ELSE Push(<<"e", d.a>>, Push(<<"wt", n>>, rest)) IN
         Go(IF d.i = 0 THEN tst ELSE Push(<<"s", d.i>>, tst), V)
    [] k = "do"   -> Go(Push(<<"s", d.b>>, Push(<<"loop", n>>, rest)), V)
    [] k = "brk"  -> Go(Pop(Unwind(rest, "loop")), V)
    [] k = "cnt"  -> Go(Unwind(rest, "loop"), V)
    [] k = "ret"  -> IF d.a = 0 THEN Go(Unwind(rest, "ret"), Push(0, V))
                     ELSE Go(Push(<<"e", d.a>>, Push(<<"rt">>, rest)), V)

LoopAgain(n, rest) ==
  LET d == N(n)
      tst == IF d.k = "for" /\ d.a = 0
             THEN Push(<<"s", d.b>>, Push(<<"loop", n>>, rest))
             ELSE Push(<<"e", d.a>>, Push(<<"wt", n>>, rest)) IN
  Go(IF d.k = "for" /\ d.r # 0
     THEN Push(<<"e", d.r>>, Push(<<"pop">>, tst)) ELSE tst, V)

SStep ==
  LET it == Top(C) rest == Pop(C) t == it[1] IN
  CASE t = "e"    -> Eval(it[2], rest)
    [] t = "o"    -> Apply(it[2], rest)
    [] t = "s"    -> Exec(it[2], rest)
    [] t = "st"   -> Store(it[2], rest)
    [] t = "pop"  -> Go(rest, Pop(V))
    [] t = "call" -> Call(it[2], rest)
    [] t = "sc"   -> LET d == N(it[2]) IN
         IF Top(V) = Undef THEN Halt("unspec", <<"undef", it[2]>>)
         ELSE IF (d.k = "lor") = (Top(V) = 1)
         THEN Go(rest, V)                         \* decided by the left operand
         ELSE Go(Push(<<"e", d.b>>, rest), Pop(V))
    [] t = "br"   -> LET d == N(it[2]) IN
         IF Top(V) = Undef THEN Halt("unspec", <<"undef", it[2]>>)
         ELSE IF Top(V) = 1 THEN Go(Push(<<"s", d.b>>, rest), Pop(V))
         ELSE IF d.c # 0 THEN Go(Push(<<"s", d.c>>, rest), Pop(V))
         ELSE Go(rest, Pop(V))
    [] t = "wt"   -> LET d == N(it[2]) IN
         IF Top(V) = Undef THEN Halt("unspec", <<"undef", it[2]>>)
         ELSE IF Top(V) = 1
         THEN Go(Push(<<"s", d.b>>, Push(<<"loop", it[2]>>, rest)), Pop(V))
         ELSE Go(rest, Pop(V))
    [] t = "loop" -> LoopAgain(it[2], rest)
    [] t = "rt"   -> Go(Unwind(rest, "ret"), V)
    [] t = "fend" -> IF P.funcs[it[2]].void = 1
                     THEN Go(Unwind(rest, "ret"), Push(0, V))
                     ELSE Halt("unspec", <<"noreturn">>)
    [] t = "ret"  -> /\ F' = it[2] /\ C' = rest /\ steps' = steps + 1
                     /\ UNCHANGED <<pid, ph, V, G, H, ev, nin, st, info>>
    [] t = "enter" -> LET f == P.funcs[it[2]] IN
         /\ C' = Push(<<"s", f.body>>, Push(<<"fend", it[2]>>, Push(<<"ret", F>>, rest)))
         /\ F' = [l |-> [i \in 1..f.nl |-> Undef], p |-> <<>>]
         /\ steps' = steps + 1
         /\ UNCHANGED <<pid, ph, V, G, H, ev, nin, st, info>>

MaxSteps == 6000

\* One step of the source machine; done = C is empty
SrcRunning == ph = "src" /\ st = "run" /\ C # Nil
SrcNext == /\ SrcRunning
           /\ IF steps > MaxSteps THEN Halt("unspec", <<"budget">>) ELSE SStep
SrcDone == ph = "src" /\ st = "run" /\ C = Nil
=============================================================================
