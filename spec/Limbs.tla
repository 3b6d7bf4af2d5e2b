------------------------------ MODULE Limbs ------------------------------
(***************************************************************************)
(* Unsigned numbers of any width as sequences of 16-bit limbs, highest     *)
(* first (TLC's integers have 32 bits).                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences

W16 == 65536
IsZero(a) == \A i \in 1..Len(a) : a[i] = 0
\* quotient and remainder by a small divisor (at most 32767)
RECURSIVE DivS(_, _, _)
DivS(a, d, r) == IF a = <<>> THEN <<<<>>, r>>
                 ELSE LET t == r * W16 + a[1]
                          q == DivS(Tail(a), d, t % d)
                      IN <<<<t \div d>> \o q[1], q[2]>>
\* product of two words as <<high, low>>
Mul16(a, b) == LET t == a * (b % 256)
                   u == a * (b \div 256)
                   s == t + (u % 256) * 256
               IN <<(s \div W16) + (u \div 256), s % W16>>
\* sum of numbers of the same length plus carry: <<carry, sum>>
RECURSIVE AddC(_, _, _)
AddC(a, b, c) == IF a = <<>> THEN <<c, <<>>>>
                 ELSE LET k == Len(a)
                          t == a[k] + b[k] + c
                          r == AddC(SubSeq(a, 1, k - 1), SubSeq(b, 1, k - 1), t \div W16)
                      IN <<r[1], Append(r[2], t % W16)>>
Add(a, b) == AddC(a, b, 0)[2]
Not(a) == [i \in 1..Len(a) |-> 65535 - a[i]]
Zero(k) == [i \in 1..k |-> 0]
Neg(a) == AddC(Not(a), Zero(Len(a)), 1)[2]
Sub(a, b) == AddC(a, Not(b), 1)[2]
IsNeg(a) == a[1] >= 32768
RECURSIVE Less(_, _)
Less(a, b) == IF a = <<>> THEN FALSE
              ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE Less(Tail(a), Tail(b))
\* product with a word, one limb longer
RECURSIVE MulW(_, _)
MulW(a, w) == IF a = <<>> THEN <<0>>
              ELSE LET p == Mul16(a[1], w)
                       r == MulW(Tail(a), w)
                   IN Add(<<p[1], p[2]>> \o Zero(Len(a) - 1), <<0>> \o r)
\* digits in base b, at least one
RECURSIVE Digs(_, _)
Digs(a, b) == IF IsZero(a) THEN <<>>
              ELSE LET q == DivS(a, b, 0) IN Append(Digs(q[1], b), q[2])
Digits(a, b) == IF IsZero(a) THEN <<0>> ELSE Digs(a, b)
=============================================================================
