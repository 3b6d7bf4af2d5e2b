------------------------------- MODULE Lex -------------------------------
(***************************************************************************)
(* The scanner as a machine that reads one character per step, and the     *)
(* value of the constant expression its tokens form.                       *)
(*                                                                         *)
(* State: the text t, the position i, the mode m (what has been begun),    *)
(* the value v and the spelling s collected so far, the number k of        *)
(* digits, the room w a string occupies, and the tokens out.  A mode that  *)
(* ends before the current character does not consume it.  Characters are  *)
(* their codes.                                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

VARIABLES t, g, i, m, v, s, k, w, out, st
vars == <<t, g, i, m, v, s, k, w, out, st>>

Digit == 48..57
Octal == 48..55
Hexa == Digit \cup 65..70 \cup 97..102
Alpha == 65..90 \cup 97..122 \cup {95}
Blank == {32, 9, 10, 11, 12, 13}
HexV(c) == IF c <= 57 THEN c - 48 ELSE IF c <= 70 THEN c - 55 ELSE c - 87
Printable(c) == c \in 32..126
NL == 10
Quo == 39
DQuo == 34
Bsl == 92

StrMax == 128

Rsv == {"void", "int", "char", "interrupt", "array", "if", "else", "while", "for", "return", "break",
        "continue", "struct", "do", "null", "boolean", "true", "false", "sizeof", "addrof", "public",
        "ord", "chr", "bool", "typedef"}
Abc == "abcdefghijklmnopqrstuvwxyz"
Low == [c \in 97..122 |->
  <<"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z">>[c - 96]]
RECURSIVE Word(_)
Word(q) == IF q = <<>> THEN "" ELSE (IF Head(q) \in 97..122 THEN Low[Head(q)] ELSE "?") \o Word(Tail(q))

Tok(kind, val) == [k |-> kind, v |-> val, s |-> <<>>]
Two == {<<61, 61>>, <<124, 124>>, <<38, 38>>, <<33, 61>>, <<60, 61>>, <<62, 61>>, <<60, 60>>, <<62, 62>>,
        <<43, 43>>, <<45, 45>>, <<46, 46>>}

(* ---- one step ---- *)
At(j) == IF j <= Len(t) THEN t[j] ELSE -1
c0 == At(i)
c1 == At(i + 1)

\* go on in mode mm after eating n characters
Eat(n, mm) == i' = i + n /\ m' = mm /\ UNCHANGED out
Emit(n, tok) == i' = i + n /\ m' = "" /\ out' = Append(out, tok) /\ v' = 0 /\ s' = <<>> /\ k' = 0 /\ w' = 0
KeepVal == UNCHANGED <<v, s, k, w>>
Clear == v' = 0 /\ s' = <<>> /\ k' = 0 /\ w' = 0
More == UNCHANGED <<t, g, st>>
Fail(x) == st' = x /\ UNCHANGED <<t, g, i, m, v, s, k, w, out>>

Start ==
  CASE c0 = -1 -> Fail("parse")
    [] c0 = NL /\ c1 = 35 -> Fail("rej")                                \* no line number follows in these texts
    [] c0 \in Blank -> Eat(1, "") /\ Clear /\ More
    [] c0 = 47 /\ c1 = 42 -> Eat(2, "com") /\ Clear /\ More
    [] c0 = 47 /\ c1 = 47 -> Eat(2, "eol") /\ Clear /\ More
    [] c0 = 48 /\ c1 \in {120, 88} -> Eat(2, "hex") /\ Clear /\ More
    [] c0 = 48 -> Eat(1, "oct") /\ Clear /\ More
    [] c0 \in Digit -> Eat(0, "dec") /\ Clear /\ More
    [] c0 \in Alpha -> Eat(0, "word") /\ Clear /\ More
    [] c0 = DQuo -> Eat(1, "str") /\ Clear /\ More
    [] c0 = Quo -> Eat(1, "chr") /\ Clear /\ More
    [] <<c0, c1>> \in Two -> Emit(IF c0 = 46 /\ At(i + 2) = 46 THEN 3 ELSE 2, Tok("op", c0 * 256 + c1)) /\ More
    [] c0 = 0 -> Fail("unspec")
    [] ~Printable(c0) -> Fail("rej")                                    \* no character of the language
    [] OTHER -> Emit(1, Tok("op", c0)) /\ More

Comment ==
  CASE c0 = -1 -> Fail("rej")
    [] c0 = 42 /\ c1 = 47 -> Eat(2, "") /\ Clear /\ More
    [] OTHER -> Eat(1, "com") /\ KeepVal /\ More
ToEol == IF c0 \in {-1, NL} THEN Eat(0, "") /\ KeepVal /\ More ELSE Eat(1, "eol") /\ KeepVal /\ More

\* digits of a number; a number that does not fit a word is outside the language
Number(set, base) ==
  IF c0 \in set
  THEN IF v > 65535 THEN Fail("unspec")
       ELSE Eat(1, m) /\ v' = v * base + HexV(c0) /\ k' = k + 1 /\ UNCHANGED <<s, w>> /\ More
  ELSE IF m = "hex" /\ k = 0 THEN Fail("rej")
  ELSE IF v > 65535 THEN Fail("unspec")
  ELSE Emit(0, Tok("num", v)) /\ More

Name ==
  IF c0 \in Alpha \cup Digit
  THEN IF Len(s) = StrMax THEN Fail("rej")
       ELSE Eat(1, m) /\ s' = Append(s, c0) /\ UNCHANGED <<v, k, w>> /\ More
  ELSE LET x == Word(s) IN
       Emit(0, IF x = "true" THEN Tok("log", 1) ELSE IF x = "false" THEN Tok("log", 0)
               ELSE [k |-> IF x \in Rsv THEN "rsv" ELSE "name", v |-> 0, s |-> s]) /\ More

\* one character of a literal is finished: q is the mode of the literal; room is what it occupies
Put(n, q, c, room) ==
  IF q = "str" /\ w + room > StrMax THEN Fail("rej")
  ELSE Eat(n, q) /\ s' = Append(s, c) /\ v' = 0 /\ k' = 0 /\ w' = w + room /\ More
Lit(q) ==          \* q = "str" or "chr"
  LET quote == IF q = "str" THEN DQuo ELSE Quo IN
  CASE c0 = -1 -> Fail("rej")
    [] c0 = Bsl /\ ~(q = "chr" /\ s # <<>>) ->
        (CASE c1 = 110 -> Put(2, q, 10, 2)
           [] c1 = 116 -> Put(2, q, 9, 2)
           [] c1 = 114 -> Put(2, q, 13, 2)
           [] c1 = 120 -> Eat(2, q \o "x") /\ KeepVal /\ More
           [] c1 = 88 -> Fail("unspec")
           [] c1 \in Octal -> Eat(1, q \o "o") /\ KeepVal /\ More
           [] Printable(c1) -> Put(2, q, c1, IF c1 \in {Quo, DQuo, Bsl} THEN 2 ELSE 1)
           [] OTHER -> Fail("rej"))
    [] q = "chr" /\ s # <<>> -> IF c0 = Quo THEN Emit(1, Tok("char", s[1])) /\ More ELSE Fail("rej")
    [] c0 = quote -> IF q = "str" THEN Emit(1, [k |-> "str", v |-> Len(s), s |-> s]) /\ More
                     ELSE Fail("unspec")                        \* ''
    [] c0 \in 0..31 \cup {127} -> Fail(IF q = "str" THEN "rej" ELSE "unspec")
    [] OTHER -> Put(1, q, c0, 1)
HexEsc(q) ==
  IF c0 \in Hexa
  THEN IF v * 16 + HexV(c0) > 255 THEN Fail("rej")
       ELSE Eat(1, m) /\ v' = v * 16 + HexV(c0) /\ k' = k + 1 /\ UNCHANGED <<s, w>> /\ More
  ELSE IF k = 0 THEN Fail("rej") ELSE Put(0, q, v, 4)
OctEsc(q) ==
  IF c0 \in Octal /\ k < 3
  THEN IF v * 8 + HexV(c0) > 255 THEN Fail("rej")
       ELSE Eat(1, m) /\ v' = v * 8 + HexV(c0) /\ k' = k + 1 /\ UNCHANGED <<s, w>> /\ More
  ELSE Put(0, q, v, 4)

Scan ==
  /\ st = "scan"
  /\ CASE m = "" -> Start
       [] m = "com" -> Comment
       [] m = "eol" -> ToEol
       [] m = "hex" -> Number(Hexa, 16)
       [] m = "oct" -> Number(Octal, 8)
       [] m = "dec" -> Number(Digit, 10)
       [] m = "word" -> Name
       [] m \in {"str", "chr"} -> Lit(m)
       [] m = "strx" -> HexEsc("str")
       [] m = "chrx" -> HexEsc("chr")
       [] m = "stro" -> OctEsc("str")
       [] m = "chro" -> OctEsc("chr")

(* ---- what the tokens mean as an initial value: precedence climbing ---- *)
W16(x) == ((x + 32768) % 65536) - 32768
Bad == [t |-> "bad", v |-> 0, j |-> 0]
Odd == [t |-> "unspec", v |-> 0, j |-> 0]
Op(x) == [k |-> "op", v |-> x, s |-> <<>>]
Code(a, b) == a * 256 + b
Prec(tk) == IF tk.k # "op" THEN 0
            ELSE CASE tk.v \in {42, 47, 37} -> 10
                   [] tk.v \in {43, 45} -> 9
                   [] tk.v \in {Code(60, 60), Code(62, 62)} -> 8
                   [] tk.v \in {60, 62, Code(60, 61), Code(62, 61)} -> 7
                   [] tk.v \in {Code(61, 61), Code(33, 61)} -> 6
                   [] tk.v = 38 -> 5
                   [] tk.v = 94 -> 4
                   [] tk.v = 124 -> 3
                   [] tk.v = Code(38, 38) -> 2
                   [] tk.v = Code(124, 124) -> 1
                   [] OTHER -> 0
TokAt(j) == IF j <= Len(out) THEN out[j] ELSE [k |-> "end", v |-> 0, s |-> <<>>]

RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
RECURSIVE BitAnd(_, _, _)
BitAnd(a, b, n) == IF n = 0 THEN 0 ELSE (IF a % 2 = 1 /\ b % 2 = 1 THEN 1 ELSE 0) + 2 * BitAnd(a \div 2, b \div 2, n - 1)
And16(a, b) == W16(BitAnd(a % 65536, b % 65536, 16))
Div(a, b) == LET q == (IF a < 0 THEN -a ELSE a) \div (IF b < 0 THEN -b ELSE b) IN IF (a < 0) = (b < 0) THEN q ELSE -q
B(x) == IF x THEN 1 ELSE 0

Bin(o, a, b) ==
  LET num == a.t = "int" /\ b.t = "int" IN
  CASE a.t \in {"bad", "unspec"} -> a
    [] b.t \in {"bad", "unspec"} -> b
    [] o \in {Code(38, 38), Code(124, 124)} ->
         IF a.t = "boolean" /\ b.t = "boolean"
         THEN [t |-> "boolean", v |-> IF o = Code(38, 38) THEN a.v * b.v ELSE B(a.v + b.v > 0), j |-> 0] ELSE Bad
    [] o \in {Code(61, 61), Code(33, 61)} ->
         IF a.t = b.t THEN [t |-> "boolean", v |-> B((a.v = b.v) = (o = Code(61, 61))), j |-> 0] ELSE Bad
    [] ~num -> Bad
    [] o = 42 -> IF a.v \in -180..180 /\ b.v \in -180..180 THEN [t |-> "int", v |-> a.v * b.v, j |-> 0] ELSE Odd
    [] o \in {47, 37} -> IF b.v = 0 THEN Odd
                         ELSE [t |-> "int", v |-> IF o = 47 THEN Div(a.v, b.v) ELSE a.v - b.v * Div(a.v, b.v), j |-> 0]
    [] o = 43 -> [t |-> "int", v |-> W16(a.v + b.v), j |-> 0]
    [] o = 45 -> [t |-> "int", v |-> W16(a.v - b.v), j |-> 0]
    [] o = Code(60, 60) -> IF b.v \in 0..15 THEN [t |-> "int", v |-> W16(a.v * Pow2(b.v)), j |-> 0] ELSE Odd
    [] o = Code(62, 62) -> IF b.v \in 0..15 THEN [t |-> "int", v |-> a.v \div Pow2(b.v), j |-> 0] ELSE Odd
    [] o = 60 -> [t |-> "boolean", v |-> B(a.v < b.v), j |-> 0]
    [] o = 62 -> [t |-> "boolean", v |-> B(a.v > b.v), j |-> 0]
    [] o = Code(60, 61) -> [t |-> "boolean", v |-> B(a.v <= b.v), j |-> 0]
    [] o = Code(62, 61) -> [t |-> "boolean", v |-> B(a.v >= b.v), j |-> 0]
    [] o = 38 -> [t |-> "int", v |-> And16(a.v, b.v), j |-> 0]
    [] o = 124 -> [t |-> "int", v |-> W16(a.v + b.v - And16(a.v, b.v)), j |-> 0]
    [] o = 94 -> [t |-> "int", v |-> W16(a.v + b.v - 2 * And16(a.v, b.v)), j |-> 0]

RECURSIVE Unary(_), Climb(_, _), Loop(_, _)
Unary(j) ==
  LET tk == TokAt(j) IN
  CASE tk.k = "num" -> [t |-> "int", v |-> W16(tk.v), j |-> j + 1]
    [] tk.k = "char" -> [t |-> "char", v |-> tk.v, j |-> j + 1]
    [] tk.k = "log" -> [t |-> "boolean", v |-> tk.v, j |-> j + 1]
    [] tk.k = "op" /\ tk.v \in {43, 45, 126, 33} ->
         LET a == Unary(j + 1) IN
        (CASE a.t \in {"bad", "unspec"} -> a
           [] tk.v = 33 -> IF a.t = "boolean" THEN [a EXCEPT !.v = 1 - a.v] ELSE Bad
           [] a.t # "int" -> Bad
           [] tk.v = 43 -> a
           [] tk.v = 45 -> [a EXCEPT !.v = W16(-a.v)]
           [] tk.v = 126 -> [a EXCEPT !.v = -a.v - 1])
    [] OTHER -> Bad
\* a is the value of what has been read; operators of precedence >= p follow
Loop(a, p) ==
  LET tk == TokAt(a.j) q == Prec(tk) IN
  IF a.t = "bad" \/ q = 0 \/ q < p THEN a
  ELSE LET b == Climb(a.j + 1, q + 1)
           r == Bin(tk.v, a, b) IN
       IF b.t = "bad" THEN Bad ELSE Loop([r EXCEPT !.j = b.j], p)
Climb(j, p) == LET a == Unary(j) IN IF a.t = "bad" THEN Bad ELSE Loop(a, p)

Mean ==
  IF Len(out) = 1 /\ out[1].k = "str" THEN [t |-> "char[]", v |-> 0, s |-> out[1].s]
  ELSE IF Len(out) = 1 /\ out[1].k = "name" THEN [t |-> "name", v |-> 0, s |-> out[1].s]
  ELSE LET e == Climb(1, 1) IN
       IF e.t # "bad" /\ e.t # "unspec" /\ e.j = Len(out) + 1 THEN [t |-> e.t, v |-> e.v, s |-> <<>>]
       ELSE IF e.t = "unspec" THEN [t |-> "unspec", v |-> 0, s |-> <<>>]
       ELSE [t |-> "rej", v |-> 0, s |-> <<>>]

(* ---- the texts ---- *)
Seqs(set, n) == [1..n -> set]
UpTo(set, n) == UNION {Seqs(set, j) : j \in 0..n}
N4 == atoi(IOEnv.DEPTH)
OpCh == {43, 45, 42, 47, 37, 38, 124, 94, 126, 33, 60, 62, 61, 46, 44, 63}
NumCh == {48, 49, 55, 56, 57, 97, 102, 120, 88, 95, 103}
LitCh == {92, 39, 34, 110, 116, 114, 120, 48, 49, 55, 56, 52, 102, 65}
EscCh == {48, 49, 52, 55, 56, 102, 39, 34, 51, 103}
BlCh == {32, 9, 10, 13, 12, 11, 47, 42, 120, 34, 35}
WdCh == {105, 102, 100, 111, 95, 49, 73}
Tail1 == <<10, 43, 49, 32, 47, 42, 42, 47, 43, 50>>             \* NL +1 /**/+2
Printing == 32..126
Texts(p) ==
  CASE p = "op" -> {<<54>> \o x \o <<51>> \o Tail1 : x \in UpTo(OpCh, N4 - 1)}
    [] p = "num" -> UpTo(NumCh, N4)
    [] p = "long" -> {<<a>> \o x \o <<b>> : a \in {48, 49, 51, 54}, b \in Digit, x \in Seqs({48, 50, 55}, 3)}
                     \cup {<<48, a>> \o x \o <<b>> : a \in {120, 88}, b \in {48, 57, 65, 70}, x \in Seqs({48, 56, 97, 102, 69}, 3)}
                     \cup {<<48>> \o x \o <<b>> : b \in {48, 55, 56}, x \in Seqs({48, 49, 55}, 4)}
    [] p = "chr" -> {<<39>> \o x \o <<39>> : x \in UpTo(LitCh, 3) \cup {<<92>> \o y : y \in UpTo(LitCh, N4 - 1)}
                                                  \cup {<<92, y>> \o z : y \in {120, 48, 49, 51, 52, 55}, z \in UpTo(EscCh, N4 - 1)}}
                    \cup {<<39, x, 39>> : x \in 32..126 \cup 160..244} \cup {<<39, 92, x, 39>> : x \in 32..126}
    [] p = "str" -> {<<34>> \o x \o <<34>> : x \in UpTo(LitCh, 3) \cup {<<92>> \o y : y \in UpTo(LitCh, N4 - 1)}
                                                  \cup {<<92, y>> \o z : y \in {120, 48, 49, 51, 52, 55}, z \in UpTo(EscCh, N4 - 1)}
                                                  \cup {<<65>> \o y : y \in UpTo(LitCh, N4 - 2)}}
                    \cup {<<34, x, 34>> : x \in 32..126 \cup 160..244} \cup {<<34, 92, x, 66, 34>> : x \in 32..126}
    [] p = "word" -> UpTo(WdCh, N4)
    [] p = "rawt" -> {<<x>> : x \in 0..255 \ Printing} \cup {<<105, 110, 116, 32, x>> : x \in 0..255 \ (Printing \cup Blank)}
    [] p = "raw" -> {a \o <<x>> \o b : x \in 0..255 \ Printing, a \in {<<>>, <<49>>, <<49, 43>>, <<45>>, <<40>>},
                                       b \in {<<>>, <<49>>, <<43, 49>>}}
    [] p = "kw" -> LET K == {<<118,111,105,100>>, <<105,110,116>>, <<99,104,97,114>>, <<105,110,116,101,114,114,117,112,116>>,
                             <<97,114,114,97,121>>, <<105,102>>, <<101,108,115,101>>, <<119,104,105,108,101>>, <<102,111,114>>,
                             <<114,101,116,117,114,110>>, <<98,114,101,97,107>>, <<99,111,110,116,105,110,117,101>>,
                             <<115,116,114,117,99,116>>, <<100,111>>, <<110,117,108,108>>, <<98,111,111,108,101,97,110>>,
                             <<116,114,117,101>>, <<102,97,108,115,101>>, <<115,105,122,101,111,102>>, <<97,100,100,114,111,102>>,
                             <<112,117,98,108,105,99>>, <<111,114,100>>, <<99,104,114>>, <<98,111,111,108>>,
                             <<116,121,112,101,100,101,102>>}
                   IN K \cup {Append(q, x) : q \in K, x \in {97, 95, 49, 65, 101}} \cup {<<x>> \o q : q \in K, x \in {97, 95, 65}}
                      \cup {[q EXCEPT ![1] = @ - 32] : q \in K} \cup {[q EXCEPT ![Len(q)] = @ - 32] : q \in K}
                      \cup {SubSeq(q, 1, Len(q) - 1) : q \in K}
    [] p = "len" -> {[j \in 1..n |-> IF j = n THEN x ELSE 97] : n \in {30, 31, 32, 33, 63, 64, 65, 126, 127, 128, 129, 130, 131, 200}, x \in {97, 98}}
                    \cup {<<34>> \o [j \in 1..n |-> 65 + (j % 25)] \o <<34>> : n \in {64, 100, 127, 128, 129, 130, 131, 200}}
                    \cup {<<34>> \o [j \in 1..4 * n |-> IF j % 4 = 1 THEN 92 ELSE 49] \o <<34>> : n \in {1, 16, 30, 31, 33, 34, 60}}
                    \cup {<<34>> \o [j \in 1..2 * n |-> IF j % 2 = 1 THEN 92 ELSE 110] \o <<34>> : n \in {1, 32, 63, 64, 65, 66, 67, 100}}
    [] p = "bl" -> {<<49>> \o x \o <<43, 50>> \o Tail1 : x \in UpTo(BlCh, N4)}

Groups == <<"op", "num", "long", "chr", "str", "word", "kw", "len", "bl", "raw", "rawt">>
Init == /\ g \in {Groups[x] : x \in {y \in 1..Len(Groups) : Groups[y] = IOEnv.GROUP}}
        /\ t \in Texts(g)
        /\ i = 1 /\ m = "" /\ v = 0 /\ s = <<>> /\ k = 0 /\ w = 0 /\ out = <<>> /\ st = "scan"
Parse == /\ st = "parse"
         /\ st' = "said"
         /\ PrintT(ToJson([x |-> t, r |-> Mean]))
         /\ UNCHANGED <<t, g, i, m, v, s, k, w, out>>
Reject == /\ st \in {"rej", "unspec"}
          /\ st' = "said"
          /\ PrintT(ToJson([x |-> t, r |-> [t |-> st, v |-> 0, s |-> <<>>]]))
          /\ UNCHANGED <<t, g, i, m, v, s, k, w, out>>
Next == Scan \/ Parse \/ Reject
Spec == Init /\ [][Next]_vars

\* the scanner never looks back and never skips what it has not classified
Sane == /\ i \in 1..Len(t) + 1
        /\ st = "scan" => m \in {"", "com", "eol", "hex", "oct", "dec", "word", "str", "chr", "strx", "chrx", "stro", "chro"}
        /\ (m = "" => s = <<>>)
        /\ \A j \in 1..Len(s) : s[j] \in 0..255
        /\ Len(out) <= i
Terminates == [][i' > i \/ m' # m \/ st' # st \/ Len(out') > Len(out)]_vars
=============================================================================
