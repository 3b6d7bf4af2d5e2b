------------------------------- MODULE Str -------------------------------
(***************************************************************************)
(* The string and character functions of the library.  buf is the contents *)
(* of the character arrays of a program; a call takes array b at offset o  *)
(* as a string.  Functions that write change exactly the documented part   *)
(* of the destination array; nothing else changes (the recorder compares   *)
(* the rest of memory: field stray).                                       *)
(***************************************************************************)
EXTENDS Trace

VARIABLE buf
vars == <<h, n, buf>>

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b

\* the string in array b (no terminator), and the tail of the array from offset o
StrOf(b) == LET z == CHOOSE i \in 1..Len(b) : b[i] = 0 /\ \A j \in 1..i - 1 : b[j] # 0 IN SubSeq(b, 1, z - 1)
At(p) == SubSeq(buf[p[1]], p[2] + 1, Len(buf[p[1]]))
S(p) == StrOf(At(p))
Z(s) == Append(s, 0)
Over(b, o, s) == [i \in 1..Len(b) |-> IF i > o /\ i <= o + Len(s) THEN s[i - o] ELSE b[i]]
Put(p, o, s) == buf' = [buf EXCEPT ![p[1]] = Over(@, p[2] + o, s)]
Same == UNCHANGED buf
Pad(s, k) == [i \in 1..k |-> IF i <= Len(s) THEN s[i] ELSE 0]
Sign(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0

\* lexical order of the codes, as a sign
Cmp(s, t) ==
  LET a == Z(s)
      b == Z(t)
      D == {i \in 1..Min(Len(a), Len(b)) : a[i] # b[i]}
  IN IF D = {} THEN 0 ELSE LET i == CHOOSE x \in D : \A y \in D : x <= y IN Sign(a[i] - b[i])
Index(P) == IF P = {} THEN -1 ELSE (CHOOSE x \in P : \A y \in P : x <= y)
Last(P) == IF P = {} THEN -1 ELSE (CHOOSE x \in P : \A y \in P : x >= y)

StrCpy(e) == e.f = "strCpy" /\ e.r = e.p /\ Put(e.p, 0, Z(S(e.q)))
StrNcpy(e) == e.f = "strNcpy" /\ e.r = e.p /\ Put(e.p, 0, Pad(SubSeq(S(e.q), 1, Min(Max(e.n - 1, 0), Len(S(e.q)))), e.n))
StrCat(e) == e.f = "strCat" /\ e.r = e.p /\ Put(e.p, Len(S(e.p)), Z(S(e.q)))
StrNcat(e) == e.f = "strNcat" /\ e.r = e.p
              /\ Put(e.p, Len(S(e.p)), Z(SubSeq(S(e.q), 1, Min(Max(e.n - 1, 0), Len(S(e.q))))))
StrCmp(e) == e.f = "strCmp" /\ Sign(e.r) = Cmp(S(e.p), S(e.q)) /\ Same
StrNcmp(e) == e.f = "strNcmp" /\ Same
              /\ Sign(e.r) = Cmp(SubSeq(S(e.p), 1, Min(e.n, Len(S(e.p)))), SubSeq(S(e.q), 1, Min(e.n, Len(S(e.q)))))
StrLen(e) == e.f = "strLen" /\ e.r = Len(S(e.p)) /\ Same
StrChr(e) == e.f = "strChr" /\ e.r = Index({i - 1 : i \in {j \in 1..Len(S(e.p)) : S(e.p)[j] = e.n}}) /\ Same
StrRchr(e) == e.f = "strRchr" /\ e.r = Last({i - 1 : i \in {j \in 1..Len(S(e.p)) : S(e.p)[j] = e.n}}) /\ Same
StrStr(e) == e.f = "strStr" /\ Same
             /\ LET s == S(e.p)
                    t == S(e.q)
                IN e.r = Index({i \in 0..Len(s) - Len(t) : SubSeq(s, i + 1, i + Len(t)) = t})

\* character classes
In(a, b, c) == a <= c /\ c <= b
Digit(c) == In(48, 57, c)
Upper(c) == In(65, 90, c)
Lower(c) == In(97, 122, c)
B(x) == IF x THEN 1 ELSE 0
Ctype(e) ==
  LET c == e.n IN
  /\ Same
  /\ \/ e.f = "isAlpha" /\ e.r = B(Upper(c) \/ Lower(c))
     \/ e.f = "isDigit" /\ e.r = B(Digit(c))
     \/ e.f = "isAlnum" /\ e.r = B(Digit(c) \/ Upper(c) \/ Lower(c))
     \/ e.f = "isPrint" /\ e.r = B(c >= 32)
     \/ e.f = "isLower" /\ e.r = B(Lower(c))
     \/ e.f = "isUpper" /\ e.r = B(Upper(c))
     \/ e.f = "isXdigit" /\ e.r = B(Digit(c) \/ In(65, 70, c) \/ In(97, 102, c))
     \/ e.f = "isSpace" /\ e.r = B(In(9, 13, c) \/ c = 32)
     \/ e.f = "toLower" /\ e.r = (IF Upper(c) THEN c + 32 ELSE c)
     \/ e.f = "toUpper" /\ e.r = (IF Lower(c) THEN c - 32 ELSE c)

\* conversions: digits are taken as far as the documentation says what they mean
RECURSIVE Num(_, _, _)
Dig(c) == IF Digit(c) THEN c - 48 ELSE IF In(65, 70, c) THEN c - 55 ELSE c - 87
Num(s, b, m) == IF s = <<>> THEN 0 ELSE (Num(SubSeq(s, 1, Len(s) - 1), b, m) * b + Dig(s[Len(s)])) % m
Conv(e) == Same /\ \/ e.f = "atoi" /\ e.r = Num(S(e.p), 10, 65536)
                   \/ e.f = "htoi" /\ LET s == S(e.p)
                                          k == Index({i \in 1..Len(s) : ~(Digit(s[i]) \/ In(65, 70, s[i]) \/ In(97, 102, s[i]))})
                                      IN e.r = Num(IF k = -1 THEN s ELSE SubSeq(s, 1, k - 1), 16, 65536)

\* the same where an integer has 32 bits, as <<high, low>>
RECURSIVE Num2(_, _)
Num2(s, b) == IF s = <<>> THEN <<0, 0>>
              ELSE LET p == Num2(SubSeq(s, 1, Len(s) - 1), b)
                       l == p[2] * b + Dig(s[Len(s)])
                   IN <<(p[1] * b + l \div 65536) % 65536, l % 65536>>
Conv32(e) == Same /\ \/ e.f = "atoi32" /\ e.r = Num2(S(e.p), 10)
                     \/ e.f = "htoi32" /\ LET s == S(e.p)
                                              k == Index({i \in 1..Len(s) : ~(Digit(s[i]) \/ In(65, 70, s[i]) \/ In(97, 102, s[i]))})
                                          IN e.r = Num2(IF k = -1 THEN s ELSE SubSeq(s, 1, k - 1), 16)

Call(e) == Conv32(e) \/ StrCpy(e) \/ StrNcpy(e) \/ StrCat(e) \/ StrNcat(e) \/ StrCmp(e) \/ StrNcmp(e) \/ StrLen(e) \/ StrChr(e)
           \/ StrRchr(e) \/ StrStr(e) \/ Ctype(e) \/ Conv(e)

Init == TInit /\ buf = H[h].buf
Next == /\ More
        /\ Call(Ev)
        /\ ~Ev.stray
        /\ buf'[Ev.w] = Ev.b        \* the array the call may have written, as it was afterwards
        /\ Take
Spec == Init /\ [][Next]_vars
=============================================================================
