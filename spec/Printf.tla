------------------------------ MODULE Printf ------------------------------
(***************************************************************************)
(* printf and fprintf.  Put(f, a) is what the format string f with the     *)
(* arguments a puts out: the characters, and whether the format was        *)
(* correct to its end.  Directives: %[-][digits]conversion.                *)
(*                                                                         *)
(* A call writes those characters to its stream, returns their number, and *)
(* changes nothing of its arguments (field stray of the recorder).  On a   *)
(* stream that was in error before (was) it writes nothing and returns 0;  *)
(* if the stream fails during the call (fails), a beginning is written and *)
(* fewer characters are counted than there are.                            *)
(***************************************************************************)
EXTENDS Trace, Limbs

vars == <<h, n>>

Dig(d) == IF d < 10 THEN 48 + d ELSE 87 + d
Text(a, b) == LET d == Digits(a, b) IN [i \in 1..Len(d) |-> Dig(d[i])]
Rep(c, k) == [i \in 1..(IF k < 0 THEN 0 ELSE k) |-> c]
\* s in a field of width w, with filling character p on the left or blanks on the right
Field(s, w, left, p) == IF left THEN s \o Rep(32, w - Len(s)) ELSE Rep(p, w - Len(s)) \o s

Conv(c, a, w, left, p) ==
  CASE c = 100 -> Field(IF IsNeg(a.v) THEN <<45>> \o Text(Neg(a.v), 10) ELSE Text(a.v, 10), w, left, p)
    [] c = 111 -> Field(Text(a.v, 8), w, left, p)
    [] c = 120 -> Field(Text(a.v, 16), w, left, p)
    [] c = 99 -> Field(<<a.v[Len(a.v)] % 256>>, w, left, 32)
    [] c = 115 -> Field(a.v, w, left, 32)

IsDig(c) == c >= 48 /\ c <= 57
RECURSIVE Width(_, _, _)
Width(f, i, w) == IF i <= Len(f) /\ IsDig(f[i]) THEN Width(f, i + 1, w * 10 + f[i] - 48) ELSE <<w, i>>
At(f, i) == IF i <= Len(f) THEN f[i] ELSE 0

\* from position i of the format with arguments a: <<characters, correct>>
RECURSIVE Put(_, _, _)
Put(f, i, a) ==
  IF i > Len(f) THEN <<<<>>, TRUE>>
  ELSE IF f[i] # 37 THEN LET r == Put(f, i + 1, a) IN <<<<f[i]>> \o r[1], r[2]>>
  ELSE LET left == At(f, i + 1) = 45
           j == IF left THEN i + 2 ELSE i + 1
           p == IF At(f, j) = 48 THEN 48 ELSE 32
           w == Width(f, j, 0)
           k == w[2]
           c == At(f, k)
       IN IF c = 108 /\ At(f, k + 1) = 100
          THEN LET r == Put(f, k + 2, Tail(a)) IN <<Field(Text(a[1].v, 10), w[1], left, p) \o r[1], r[2]>>
          ELSE IF c = 37 THEN LET r == Put(f, k + 1, a) IN <<<<37>> \o r[1], r[2]>>
          ELSE IF c \in {100, 111, 120, 99, 115}
          THEN LET r == Put(f, k + 1, Tail(a)) IN <<Conv(c, a[1], w[1], left, p) \o r[1], r[2]>>
          ELSE <<<<>>, FALSE>>

Call(e) ==
  LET r == Put(e.fmt, 1, e.args) IN
  /\ ~e.stray
  /\ IF e.was THEN e.out = <<>> /\ e.st = "ret" /\ e.r = 0
     ELSE IF e.fails THEN /\ Len(e.out) <= Len(r[1]) /\ e.out = SubSeq(r[1], 1, Len(e.out))
                          /\ e.st = "ret" /\ e.r >= 0 /\ e.r < Len(r[1])
     ELSE e.out = r[1] /\ IF r[2] THEN e.st = "ret" /\ e.r = Len(r[1]) ELSE e.st = "exit" /\ e.r = -32

Init == TInit
Next == More /\ Call(Ev) /\ Take
Spec == Init /\ [][Next]_vars
=============================================================================
