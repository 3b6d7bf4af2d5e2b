------------------------------- MODULE TaC -------------------------------
(***************************************************************************)
(* The TaC CPU as the C-- compiler uses it: 16-bit registers G0-G11, FP,   *)
(* SP, flags Z N V C, byte-addressed big-endian memory with even-aligned   *)
(* words, a descending stack.  The image (assembled by lib/asm.py from the *)
(* compiler's output) is im = [code, data, dbase, entry].                  *)
(*                                                                         *)
(* The machine is "stuck" on anything the calling convention or the        *)
(* hardware rules out: undefined operands or flags, unaligned or wild      *)
(* accesses, an access to the stack below SP, a RET that does not find the *)
(* return address, stack pointer, frame pointer and register variables of  *)
(* the call.                                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, Bitwise, TLC

VARIABLES pc, R, fl, D, K, sh

tvars == <<pc, R, fl, D, K, sh>>

U == -1               \* undefined contents
ErrW == -2            \* access fault
StkTop == 61440       \* 0xF000
StkWords == 400
FPr == 13
SPr == 14

TFlags(z, n, v, c) == [k |-> TRUE, z |-> z, n |-> n, v |-> v, c |-> c]
NoFlags == [k |-> FALSE, z |-> FALSE, n |-> FALSE, v |-> FALSE, c |-> FALSE]
Neg16(x) == x >= 32768
S16(x) == IF x >= 32768 THEN x - 65536 ELSE x
U16(x) == x % 65536

InData(im, a) == a >= im.dbase /\ a < im.dbase + 2 * Len(D)
InStk(a) == a >= StkTop - 2 * StkWords /\ a < StkTop
RdWd(im, a) ==
  IF a % 2 = 1 THEN ErrW
  ELSE IF InData(im, a) THEN D[(a - im.dbase) \div 2 + 1]
  ELSE IF InStk(a) /\ a >= R[SPr] THEN K[(StkTop - a) \div 2]
  ELSE ErrW
RdBt(im, a) ==
  LET w == IF InData(im, a) THEN D[(a - im.dbase) \div 2 + 1]
           ELSE IF InStk(a) /\ a >= R[SPr] THEN K[(StkTop - a + 1) \div 2]
           ELSE ErrW IN
  IF w = ErrW \/ w = U THEN w
  ELSE IF a % 2 = 0 THEN w \div 256 ELSE w % 256

\* Memory after storing word w at a; <<>> when the access is illegal
OkWr(im, a) == a % 2 = 0 /\ (InData(im, a) \/ (InStk(a) /\ a >= R[SPr]))
OkWrB(im, a) == InData(im, a) \/ (InStk(a) /\ a >= R[SPr])
MixB(old, a, b) == LET o == IF old = U THEN 0 ELSE old IN
  IF a % 2 = 0 THEN ((b % 256) * 256) + (o % 256) ELSE ((o \div 256) * 256) + (b % 256)

\* value of the source operand of instruction i
Opnd(im, i) ==
  CASE i.m = "r" -> R[i.x]
    [] i.m = "i" -> i.v
    [] i.m = "a" -> RdWd(im, i.v)
    [] i.m = "x" -> IF R[i.x] = U THEN ErrW ELSE RdWd(im, U16(R[i.x] + i.v))
    [] i.m = "b" -> IF R[i.x] = U THEN ErrW ELSE RdBt(im, R[i.x])
    [] OTHER -> 0

LogF(r) == TFlags(r = 0, Neg16(r), FALSE, FALSE)
MulU(a, b) == (((a * (b % 256)) % 65536) + (((a * (b \div 256)) % 256) * 256)) % 65536

AddR(a, b) == U16(a + b)
AddF(a, b) == LET r == U16(a + b) IN
  TFlags(r = 0, Neg16(r), (Neg16(a) = Neg16(b)) /\ (Neg16(r) # Neg16(a)), a + b > 65535)
SubR(a, b) == U16(a - b)
SubF(a, b) == LET r == U16(a - b) IN
  TFlags(r = 0, Neg16(r), (Neg16(a) # Neg16(b)) /\ (Neg16(r) # Neg16(a)), a < b)

P2 == [i \in 0..16 |-> 2^i]

\* result and flags of a register operation, <<result, flags>>
Alu(o, a, b) ==
  CASE o = "ADD"  -> <<AddR(a, b), AddF(a, b)>>
    [] o = "ADDS" -> <<AddR(a, U16(2 * b)), AddF(a, U16(2 * b))>>
    [] o = "SUB"  -> <<SubR(a, b), SubF(a, b)>>
    [] o = "CMP"  -> <<a, SubF(a, b)>>
    [] o = "AND"  -> LET r == a & b IN <<r, LogF(r)>>
    [] o = "OR"   -> LET r == a | b IN <<r, LogF(r)>>
    [] o = "XOR"  -> LET r == a ^^ b IN <<r, LogF(r)>>
    [] o = "MUL"  -> LET r == MulU(a, b) IN <<r, LogF(r)>>
    [] o = "DIV"  -> LET r == a \div b IN <<r, LogF(r)>>
    [] o = "MOD"  -> LET r == a % b IN <<r, LogF(r)>>
    [] o = "SHLA" \/ o = "SHLL" ->
         LET n == b % 16
             r == (a % P2[16 - n]) * P2[n] IN
         <<r, TFlags(r = 0, Neg16(r), FALSE, n > 0 /\ (a \div P2[16 - n]) % 2 = 1)>>
    [] o = "SHRA" ->
         LET n == b % 16
             r == U16(S16(a) \div P2[n]) IN
         <<r, TFlags(r = 0, Neg16(r), FALSE, n > 0 /\ (a \div P2[n - 1]) % 2 = 1)>>
    [] o = "SHRL" ->
         LET n == b % 16
             r == a \div P2[n] IN
         <<r, TFlags(r = 0, Neg16(r), FALSE, n > 0 /\ (a \div P2[n - 1]) % 2 = 1)>>

AluOps == {"ADD", "ADDS", "SUB", "CMP", "AND", "OR", "XOR", "MUL", "DIV", "MOD",
           "SHLA", "SHLL", "SHRA", "SHRL"}
JmpOps == {"JMP", "JLT", "JLE", "JZ", "JGE", "JGT", "JNZ", "JC", "JNC", "JHI",
           "JLS", "JM", "JNM"}

Taken(o, f) ==
  CASE o = "JMP" -> TRUE
    [] o = "JZ"  -> f.z
    [] o = "JNZ" -> ~f.z
    [] o = "JLT" -> f.n # f.v
    [] o = "JGE" -> f.n = f.v
    [] o = "JLE" -> f.z \/ f.n # f.v
    [] o = "JGT" -> ~f.z /\ f.n = f.v
    [] o = "JC"  -> f.c
    [] o = "JNC" -> ~f.c
    [] o = "JHI" -> ~f.c /\ ~f.z
    [] o = "JLS" -> f.c \/ f.z
    [] o = "JM"  -> f.n
    [] o = "JNM" -> ~f.n

\* what a call must give back: SP, FP and the register variables
SavedOf(r) == <<r[SPr], r[FPr], r[4], r[5], r[6], r[7], r[8], r[9], r[10], r[11], r[12]>>
Saved == SavedOf(R)

NReg == 14
NoReg == [i \in 1..NReg |-> U]

\* Machine start: return address 0 on the stack, everything else undefined
TInitR == [i \in 1..NReg |-> IF i = SPr THEN StkTop - 2
                             ELSE IF i = FPr THEN 4660
                             ELSE 7000 + i]
TInitK == [i \in 1..StkWords |-> IF i = 1 THEN 0 ELSE U]
=============================================================================
