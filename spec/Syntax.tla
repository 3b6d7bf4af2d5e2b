------------------------------- MODULE Syntax -------------------------------
(***************************************************************************)
(* The documented grammar of declarations, functions and statements as a    *)
(* pushdown machine that reads one token per step, with the rules the       *)
(* grammar leaves to the text: break and continue only inside loops, return *)
(* with a value exactly in functions that have one, such functions end with *)
(* return, conditions are boolean, no void variables.                       *)
(*                                                                         *)
(* TLC explores every configuration of the machine up to a bound.  For each *)
(* it reports the shortest text leading there, a shortest completion, the   *)
(* tokens that may follow (each with a completion) and those that may not.  *)
(* Tokens i, b and null are an integer, a boolean and a reference constant; *)
(* "name" is always a new name.                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Bases == {"int", "boolean", "void", "S"}
Tokens == Bases \cup {"public", "struct", "typedef", "name", "(", ")", "{", "}", "[", "]", ",", ";", "=", "...",
           "if", "else", "while", "do", "for", "return", "break", "continue", "i", "b", "null", "array", "+", "-", "!"}

Sy(k, v, d) == [k |-> k, v |-> v, d |-> d]
X(k) == Sy(k, "", 0)
Tm(tok) == Sy("t", tok, 0)

\* result kinds of an expression: "int", "boolean", "ref"; of a declared type:
KindOf(b, d) == IF d > 0 THEN "ref" ELSE b
Fits(ty, want) == ty = want \/ (ty = "ref" /\ want = "S")

Fail == [r |-> "fail"]
Unknown == [r |-> "unk"]

GI(b, d) == Sy("GI", b, d)

\* the first check that an expression completed now will meet, "" if none
RECURSIVE Want(_)
Want(s) == IF s = << >> THEN ""
           ELSE IF s[1].k \in {"ETail", "EComma", "CPar"} \/ (s[1].k = "t" /\ s[1].v = ")") THEN Want(Tail(s))
           ELSE IF s[1].k = "Chk" THEN s[1].v ELSE ""
\* no continuation can repair the type of the expression just read
RECURSIVE Dead(_, _)
Dead(s, ty) == IF s = << >> THEN FALSE
               ELSE IF s[1].k \in {"ETail", "CPar"} THEN Dead(Tail(s), ty)
               ELSE s[1].k = "Chk" /\ ~Fits(ty, s[1].v)

InLoop(s) == \E n \in 1..Len(s) : s[n].k = "EndLoop"

Uses(s, ks) == \E n \in 1..Len(s) : s[n].k \in ks

RECURSIVE Step(_, _)
Step(st, tok) ==
  IF st.s = << >> THEN Fail
  ELSE
  LET x == Head(st.s)
      r == Tail(st.s)
      Go(q) == Step([st EXCEPT !.s = q \o r], tok)             \* without reading
      Pop == Step([st EXCEPT !.s = r], tok)
      Eat(q) == [st EXCEPT !.s = q \o r]                         \* tok is read
      EatTy(ty) == IF Dead(r, ty) THEN Fail ELSE [st EXCEPT !.s = r, !.ty = ty]
      Cond == <<Tm("("), X("E"), Sy("Chk", "boolean", 0), Tm(")")>>
  IN
  CASE x.k = "t" -> IF tok = x.v THEN
                        IF tok = ")" /\ Dead(r, st.ty) THEN Fail ELSE Eat(<< >>)
                    ELSE Fail
  \* declarations
    [] x.k = "Prog" ->
         IF tok = "public" THEN [Eat(<<X("Decl"), X("Prog")>>) EXCEPT !.pub = TRUE]
         ELSE IF tok = "struct" THEN Eat(<<Tm("name"), Tm("{"), X("Fld1"), X("Prog")>>)
         ELSE IF tok = "typedef" THEN Eat(<<Tm("name"), Tm(";"), X("Prog")>>)
         ELSE IF tok \in Bases THEN Step([st EXCEPT !.s = <<X("Decl"), X("Prog")>>, !.pub = FALSE], tok)
         ELSE Fail
    [] x.k = "Fld1" -> IF tok = "}" THEN Unknown ELSE Go(<<X("Type"), X("VName"), X("FMore"), X("Flds")>>)
    [] x.k = "Flds" -> IF tok = "}" THEN Eat(<<Tm(";")>>) ELSE Go(<<X("Type"), X("VName"), X("FMore"), X("Flds")>>)
    [] x.k = "FMore" -> IF tok = "," THEN Eat(<<X("VName"), X("FMore")>>) ELSE IF tok = ";" THEN Eat(<< >>) ELSE Fail
    [] x.k = "Type" -> IF tok \in Bases THEN [Eat(<<X("Dims")>>) EXCEPT !.base = tok, !.dim = 0] ELSE Fail
    [] x.k = "Dims" -> IF tok = "[" THEN [Eat(<<Tm("]"), X("Dims")>>) EXCEPT !.dim = st.dim + 1] ELSE Pop
    [] x.k = "VName" -> IF tok = "name" /\ ~(st.base = "void" /\ st.dim = 0) THEN Eat(<< >>) ELSE Fail
    [] x.k = "Decl" -> Go(<<X("Type"), Tm("name"), X("AfterTop")>>)
    [] x.k = "AfterTop" ->
         IF tok = "(" THEN [Eat(<<X("Params"), Tm(")"), X("FuncEnd")>>) EXCEPT !.kind = KindOf(st.base, st.dim)]
         ELSE IF st.base = "void" /\ st.dim = 0 THEN Fail
         ELSE Go(<<X("GInit"), X("GMore")>>)
    [] x.k = "GInit" -> IF tok # "=" THEN Pop ELSE IF st.base = "void" THEN Unknown ELSE Eat(<<GI(st.base, st.dim)>>)
    [] x.k = "GMore" -> IF tok = "," THEN Eat(<<Tm("name"), X("GInit"), X("GMore")>>) ELSE IF tok = ";" THEN Eat(<< >>) ELSE Fail
    [] x.k = "GI" ->
         IF x.d > 0 THEN
              IF tok = "null" THEN Eat(<< >>)
              ELSE IF tok = "array" THEN Eat(<<Tm("("), X("Size"), Sy("AMore", "", x.d - 1), Tm(")")>>)
              ELSE IF tok = "{" THEN Eat(<<GI(x.v, x.d - 1), Sy("GIMore", x.v, x.d - 1), Tm("}")>>)
              ELSE Fail
         ELSE IF x.v = "S" THEN
              IF tok = "null" THEN Eat(<< >>)
              ELSE IF tok = "{" THEN Eat(<<X("AE"), Sy("Chk", "int", 0), Tm(","), X("AE"), Sy("Chk", "boolean", 0), Tm("}")>>)
              ELSE Fail
         ELSE Go(<<X("AE"), Sy("Chk", x.v, 0)>>)
    [] x.k = "GIMore" -> IF tok = "," THEN Eat(<<GI(x.v, x.d), x>>) ELSE Pop
    [] x.k = "Size" -> IF tok = "i" THEN Eat(<<X("SizeT")>>) ELSE IF tok \in {"(", "-", "+"} THEN Unknown ELSE Fail
    [] x.k = "SizeT" -> IF tok = "+" THEN Eat(<<X("Size")>>) ELSE Pop
    [] x.k = "AMore" -> IF tok = "," THEN IF x.d > 0 THEN Eat(<<X("Size"), Sy("AMore", "", x.d - 1)>>) ELSE Fail ELSE Pop
    [] x.k = "Params" -> IF tok = "..." THEN Eat(<< >>)
                         ELSE IF tok \in Bases THEN Go(<<X("Type"), X("VName"), X("PMore")>>) ELSE Pop
    [] x.k = "PMore" -> IF tok = "," THEN Eat(<<X("PNext")>>) ELSE Pop
    [] x.k = "PNext" -> IF tok = "..." THEN Eat(<< >>) ELSE Go(<<X("Type"), X("VName"), X("PMore")>>)
    [] x.k = "FuncEnd" -> IF tok = "{" THEN [Eat(<<X("Body")>>) EXCEPT !.last = FALSE]
                          ELSE IF tok = ";" THEN Eat(<< >>) ELSE Fail
  \* statements
    [] x.k = "Body" ->
         IF tok = "}" THEN IF st.kind # "void" /\ ~st.last THEN Fail ELSE Eat(<< >>)
         ELSE IF tok \in Bases THEN Go(<<X("Type"), X("VName"), X("LInit"), X("LMore"), x>>)
         ELSE Go(<<X("Stat"), Sy("Last", IF tok = "return" THEN "y" ELSE "n", 0), x>>)
    [] x.k = "Last" -> Step([st EXCEPT !.s = r, !.last = (x.v = "y")], tok)
    [] x.k = "Items" ->
         IF tok = "}" THEN Eat(<< >>)
         ELSE IF tok \in Bases THEN Go(<<X("Type"), X("VName"), X("LInit"), X("LMore"), x>>)
         ELSE Go(<<X("Stat"), x>>)
    [] x.k = "LInit" -> IF tok = "=" THEN Eat(<<X("AE"), Sy("Chk", KindOf(st.base, st.dim), 0)>>) ELSE Pop
    [] x.k = "LMore" -> IF tok = "," THEN Eat(<<X("VName"), X("LInit"), x>>) ELSE IF tok = ";" THEN Eat(<< >>) ELSE Fail
    [] x.k = "FMoreL" -> IF tok = "," THEN Eat(<<X("VName"), X("LInit"), x>>) ELSE Pop
    [] x.k = "Stat" ->
         IF tok = "if" THEN Eat(Cond \o <<X("Stat"), X("ElseOpt")>>)
         ELSE IF tok = "while" THEN Eat(Cond \o <<X("Stat"), X("EndLoop")>>)
         ELSE IF tok = "do" THEN Eat(<<X("Stat"), X("EndLoop"), Tm("while")>> \o Cond \o <<Tm(";")>>)
         ELSE IF tok = "for" THEN Eat(<<Tm("("), X("ForInit"), Tm(";"), X("ForCond"), Tm(";"), X("ForUpd"), Tm(")"), X("Stat"), X("EndLoop")>>)
         ELSE IF tok = "return" THEN IF st.kind = "void" THEN Eat(<<Tm(";")>>)
                                     ELSE Eat(<<X("E"), Sy("Chk", st.kind, 0), Tm(";")>>)
         ELSE IF tok \in {"break", "continue"} THEN IF InLoop(r) THEN Eat(<<Tm(";")>>) ELSE Fail
         ELSE IF tok = "{" THEN Eat(<<X("Items")>>)
         ELSE IF tok = ";" THEN Eat(<< >>)
         ELSE Go(<<X("E"), Tm(";")>>)
    [] x.k = "EndLoop" -> Pop
    [] x.k = "ElseOpt" -> IF tok = "else" THEN Eat(<<X("Stat")>>) ELSE Pop
    [] x.k = "ForInit" -> IF tok = ";" THEN Pop
                          ELSE IF tok \in Bases THEN Go(<<X("Type"), X("VName"), X("LInit"), X("FMoreL")>>)
                          ELSE Go(<<X("E")>>)
    [] x.k = "ForCond" -> IF tok = ";" THEN Pop ELSE Go(<<X("E"), Sy("Chk", "boolean", 0)>>)
    [] x.k = "ForUpd" -> IF tok = ")" THEN Pop ELSE Go(<<X("E")>>)
  \* expressions
    [] x.k = "E" -> Go(<<X("AE"), X("EComma")>>)
    [] x.k = "EComma" -> IF tok # "," THEN Pop
                         ELSE Eat(<<X("AE"), x>>)
    [] x.k = "AE" -> Go(<<X("Prim"), X("ETail")>>)
    [] x.k = "Prim" -> IF tok = "i" THEN EatTy("int")
                       ELSE IF tok = "b" THEN EatTy("boolean")
                       ELSE IF tok = "null" THEN EatTy("ref")
                       ELSE IF tok \in {"-", "+"} THEN IF Dead(r, "int") THEN Fail ELSE Eat(<<X("Prim"), Sy("Chk", "int", 0)>>)
                       ELSE IF tok = "!" THEN IF Dead(r, "boolean") THEN Fail ELSE Eat(<<X("Prim"), Sy("Chk", "boolean", 0)>>)
                       ELSE IF tok = "(" THEN Eat(IF Uses(r, {"Body"}) THEN <<X("E"), Tm(")")>>
                                                   ELSE <<X("AE"), X("CPar")>>)   \* constants: no comma
                       ELSE Fail
    [] x.k = "CPar" -> IF tok = ")" THEN IF Dead(r, st.ty) THEN Fail ELSE Eat(<< >>)
                       ELSE IF tok = "," THEN Unknown ELSE Fail
    [] x.k = "ETail" -> IF tok = "+" THEN IF st.ty = "int" THEN Eat(<<X("Prim"), Sy("Chk", "int", 0), x>>) ELSE Fail ELSE Pop
    [] x.k = "Chk" -> IF Fits(st.ty, x.v) THEN Pop ELSE Fail


\* the next token of a shortest completion; "" when the text may end here
RECURSIVE NextTok(_)
NextTok(st) ==
  LET x == Head(st.s)
      On == NextTok([st EXCEPT !.s = Tail(st.s)])
      w == Want(Tail(st.s))
  IN CASE x.k = "t" -> x.v
       [] x.k = "Prog" -> ""
       [] x.k \in {"Decl", "Type", "Fld1", "PNext"} -> "int"
       [] x.k = "Flds" -> "}"
       [] x.k \in {"FMore", "GMore", "LMore", "FuncEnd", "Stat"} -> ";"
       [] x.k = "VName" -> "name"
       [] x.k = "Dims" -> IF st.base = "void" /\ st.dim = 0 /\ st.s[2].k = "VName" THEN "[" ELSE On
       [] x.k = "AfterTop" -> IF st.base = "void" /\ st.dim = 0 THEN "(" ELSE ";"
       [] x.k = "GI" -> IF x.d > 0 \/ x.v = "S" THEN "null" ELSE IF x.v = "int" THEN "i" ELSE "b"
       [] x.k = "Size" -> "i"
       [] x.k = "Body" -> IF st.kind # "void" /\ ~st.last THEN "return" ELSE "}"
       [] x.k = "Last" -> NextTok([st EXCEPT !.s = Tail(st.s), !.last = (x.v = "y")])
       [] x.k = "Items" -> "}"
       [] x.k = "CPar" -> ")"
       [] x.k = "ForCond" -> On
       [] x.k = "EComma" -> IF w # "" /\ ~Fits(st.ty, w) THEN "," ELSE On
       [] x.k \in {"E", "AE", "Prim"} -> IF w = "boolean" THEN "b" ELSE IF w \in {"ref", "S"} THEN "null" ELSE "i"
       [] OTHER -> On

RECURSIVE Complete(_, _)
Complete(st, n) ==
  LET t == NextTok(st) IN
  IF t = "" THEN << >>
  ELSE IF n = 0 THEN <<"STUCK">>
  ELSE LET q == Step(st, t) IN
       IF "r" \in DOMAIN q THEN <<"STUCK", t>> ELSE <<t>> \o Complete(q, n - 1)

Start == [s |-> <<X("Prog")>>, ty |-> "", base |-> "", dim |-> 0, pub |-> FALSE, kind |-> "", last |-> FALSE]

Digits == [n \in 0..99 |-> ToString(n)]
Num(s) == CHOOSE n \in 0..99 : Digits[n] = s
MaxStack == Num(IOEnv.MAXSTACK)
MaxLen == Num(IOEnv.MAXLEN)
\* what the exploration starts from: the beginning, or the inside of a function of some kind
StartText == CASE IOEnv.FROM = "top" -> << >>
               [] IOEnv.FROM = "int" -> <<"int", "name", "(", ")", "{">>
               [] IOEnv.FROM = "void" -> <<"void", "name", "(", ")", "{">>
               [] IOEnv.FROM = "boolean" -> <<"public", "boolean", "name", "(", ")", "{">>
               [] IOEnv.FROM = "ref" -> <<"int", "[", "]", "name", "(", ")", "{">>
RECURSIVE Run(_, _)
Run(st, q) == IF q = << >> THEN st ELSE Run(Step(st, Head(q)), Tail(q))

\* irrelevant parts of the configuration are normalised so that it is not explored twice
NeedsTy(s) == s # << >> /\ (s[1].k \in {"Chk"} \/ (s[1].k \in {"ETail", "EComma", "CPar"}))
NeedsDecl(s) == Uses(s, {"Dims", "VName", "AfterTop", "GInit", "GMore", "LInit", "LMore", "FMoreL", "FMore"})
Norm(st) == [st EXCEPT !.ty = IF NeedsTy(st.s) \/ (st.s # << >> /\ st.s[1].k = "t" /\ st.s[1].v = ")") THEN st.ty ELSE "",
                       !.base = IF NeedsDecl(st.s) THEN st.base ELSE "",
                       !.dim = IF NeedsDecl(st.s) THEN st.dim ELSE 0,
                       !.pub = FALSE,
                       !.kind = IF Uses(st.s, {"FuncEnd", "Body"}) THEN st.kind ELSE "",
                       !.last = IF Uses(st.s, {"Body"}) THEN st.last ELSE FALSE]

VARIABLES st, toks
Init == st = Norm(Run(Start, StartText)) /\ toks = StartText
\* With HIST = "y" only the tokens of statements are used, and texts that lead to the same configuration
\* through different statements are kept apart (the machine forgets what a translator may remember).
Hist == IOEnv.HIST = "y"
Used == IF Hist THEN {"{", "}", "return", "i", ";", "while", "(", ")", "b", "if", "else", "do", "for", "break"} ELSE Tokens
Next == \E t \in Used :
          LET q == Step(st, t) IN
          /\ ~("r" \in DOMAIN q)
          /\ st' = Norm(q) /\ toks' = Append(toks, t)
Spec == Init /\ [][Next]_<<st, toks>>
Bound == Len(st.s) <= MaxStack /\ Len(toks) <= MaxLen /\ st.dim <= 2
Marks == {"return", "{", "}", "while", "if", "else", "do", "for", "break"}
Past == LET q == SelectSeq(toks, LAMBDA t : t \in Marks) IN SubSeq(q, IF Len(q) > 4 THEN Len(q) - 3 ELSE 1, Len(q))
View == <<st, IF Hist THEN Past ELSE << >>>>

\* every configuration has a completion the machine itself accepts
Completable == Bound => LET c == Complete(st, 60) IN "STUCK" \notin { c[n] : n \in 1..Len(c) }
Emit == Bound => LET c == Complete(st, 60)
            f == [t \in Tokens |-> Step(st, t)]
            good == { t \in Tokens : ~("r" \in DOMAIN f[t]) }
        IN PrintT(<<"C", ToJson([p |-> toks, c |-> c, no |-> { t \in Tokens : f[t] = Fail },
                                 ok |-> [t \in good |-> Complete(f[t], 60)]])>>)
=============================================================================
