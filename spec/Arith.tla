------------------------------ MODULE Arith -------------------------------
(***************************************************************************)
(* The run-time routines of TaC: 32-bit arithmetic on pairs of words in    *)
(* memory, comparisons without sign, addresses, conversions of numbers,    *)
(* random numbers, the stack check, ports and the start of a program.      *)
(*                                                                         *)
(* State: three 32-bit numbers in memory (the same one may be both         *)
(* operands) and the state of the generator of random numbers.             *)
(* "alu" and "jump" events compare the instruction set of the simulator    *)
(* with spec/TaC.tla.                                                      *)
(***************************************************************************)
EXTENDS Trace, Limbs, Bitwise

VARIABLES m, lfsr
vars == <<h, n, m, lfsr>>

T == INSTANCE TaC WITH pc <- 0, R <- <<>>, fl <- 0, D <- <<>>, K <- <<>>, sh <- 0

Shl(a) == Add(a, a)
\* quotient and remainder of a 32-bit number by a word, bit by bit: a has k bits still to go; r has 2 limbs
RECURSIVE DivBits(_, _, _, _, _)
DivBits(a, d, q, r, k) ==
  IF k = 0 THEN <<q, r>>
  ELSE LET r1 == Add(Shl(r), <<0, IF a[1] >= 32768 THEN 1 ELSE 0>>)
           fits == ~Less(r1, <<0, d>>)
       IN DivBits(Shl(a), d, IF fits THEN Add(Shl(q), <<0, 1>>) ELSE Shl(q), IF fits THEN Sub(r1, <<0, d>>) ELSE r1, k - 1)
Div32(a, d) == DivBits(a, d, <<0, 0>>, <<0, 0>>, 32)

\* value the destination has afterwards
Val(e) == LET d == m[e.d] IN
  CASE e.f = "add32" -> Add(d, m[e.s])
    [] e.f = "sub32" -> Sub(d, m[e.s])
    [] e.f = "mul32" -> Mul16(d[2], e.w)
    [] e.f = "div32" -> Div32(d, e.w)[1]
    [] e.f = "mod32" -> d

Long(e) == /\ e.k = "long" /\ ~e.stray
           /\ m' = [m EXCEPT ![e.d] = Val(e)]
           /\ e.m = m'
           /\ IF e.f = "mod32" THEN e.r = Div32(m[e.d], e.w)[2][2] ELSE e.r = e.a
           /\ UNCHANGED lfsr
Set(e) == e.k = "set" /\ m' = e.m /\ UNCHANGED lfsr

CmpU(a, b) == IF a > b THEN 1 ELSE IF a = b THEN 0 ELSE -1
IsDig(c) == c >= 48 /\ c <= 57
HexV(c) == IF IsDig(c) THEN c - 48 ELSE IF c >= 97 /\ c <= 102 THEN c - 87 ELSE IF c >= 65 /\ c <= 70 THEN c - 55 ELSE -1
RECURSIVE Dec(_, _), Hex(_, _)
Dec(s, v) == IF s = <<>> THEN v ELSE Dec(Tail(s), (v * 10 + Head(s) - 48) % W16)
Hex(s, v) == IF s = <<>> \/ HexV(Head(s)) < 0 THEN v ELSE Hex(Tail(s), ((v % 4096) * 16) + HexV(Head(s)))

Fun(e) == /\ e.k = "fun" /\ ~e.stray
          /\ e.r = CASE e.f \in {"uCmp", "aCmp"} -> CmpU(e.a, e.b) % W16
                     [] e.f = "addrAdd" -> (e.a + e.b) % W16
                     [] e.f \in {"aToI", "iToA", "aToA"} -> e.a
                     [] e.f = "atoi" -> Dec(e.s, 0)
                     [] e.f = "htoi" -> Hex(e.s, 0)
                     [] e.f = "in" -> e.b
                     [] e.f = "sp" -> e.a
                     [] OTHER -> -1
          /\ UNCHANGED <<m, lfsr>>
\* one word to one port
Out(e) == e.k = "out" /\ ~e.stray /\ e.seen = <<<<e.a, e.b>>>> /\ UNCHANGED <<m, lfsr>>

Next32(x) == (x \div 2) ^^ (IF x % 2 = 1 THEN 46080 ELSE 0)
Rand(e) == e.k = "rand" /\ lfsr' = Next32(lfsr) /\ e.r = lfsr' /\ UNCHANGED m
Srand(e) == e.k = "srand" /\ lfsr' = (IF e.a = 0 THEN 1 ELSE e.a) /\ UNCHANGED m

\* a: end of the heap, b: stack pointer; exactly 10 bytes are left open
Stk(e) == /\ e.k = "stk" /\ ~e.stray
          /\ IF e.b - e.a < 10 THEN e.st = "exit" /\ e.r = -26
             ELSE e.b - e.a = 10 \/ e.st = "ret"
          /\ UNCHANGED <<m, lfsr>>

\* the program sees its arguments and environment, and ends with the result of main after all output is out
Start(e) == /\ e.k = "start" /\ e.st = "exit"
            /\ e.argv = e.arg0 /\ e.env = e.env0
            /\ e.out = e.out0 /\ e.r = e.r0
            /\ UNCHANGED <<m, lfsr>>
Args(e) == e.k = "args" /\ e.r = e.a /\ ~e.stray /\ UNCHANGED <<m, lfsr>>

Fl(f) == <<f.z, f.n, f.v, f.c>>
AluStep(e) == e.k = "alu" /\ <<e.r, e.fl>> = (LET x == T!Alu(e.o, e.a, e.b) IN <<x[1], Fl(x[2])>>)
              /\ UNCHANGED <<m, lfsr>>
Jump(e) == e.k = "jump" /\ e.r = T!Taken(e.o, [z |-> e.fl[1], n |-> e.fl[2], v |-> e.fl[3], c |-> e.fl[4]])
           /\ UNCHANGED <<m, lfsr>>

Init == TInit /\ m = <<>> /\ lfsr = 1
Next == /\ More
        /\ LET e == Ev IN Long(e) \/ Set(e) \/ Fun(e) \/ Out(e) \/ Rand(e) \/ Srand(e) \/ Stk(e) \/ Start(e) \/ Args(e) \/ AluStep(e) \/ Jump(e)
        /\ Take
Spec == Init /\ [][Next]_vars
=============================================================================
