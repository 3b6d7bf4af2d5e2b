------------------------------- MODULE Types -------------------------------
(***************************************************************************)
(* The type rules of C-- as a judgement over expressions, statements and    *)
(* initialisers, and the set of all cases of it: every operator applied to  *)
(* every pair of operand classes, and every operand class (a variable,      *)
(* constant or call of each type, or the result of an operator) in every    *)
(* context that asks for a type.  TLC evaluates the judgement for each case *)
(* and writes the cases with their verdicts; they are replayed into the     *)
(* translators.                                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

T(b, d) == [b |-> b, d |-> d]
TInt == T("int", 0)      TChar == T("char", 0)    TBool == T("boolean", 0)
TVoid == T("void", 0)    Err == T("err", 0)

StructNames == {"S", "P"}
Opaque == {"O"}
IsRec(t) == t.d = 0 /\ t.b \in StructNames \cup Opaque   \* one reference to a record
IsArr(t) == t.d > 0
AnyArr(t) == t.d > 0 /\ t.b = "void"
Fields == [S |-> [i |-> TInt, c |-> TChar, b |-> TBool, n |-> T("S", 0), p |-> T("P", 0), o |-> T("O", 0),
                  ia |-> T("int", 1), ca |-> T("char", 1), sa |-> T("S", 1), va |-> T("void", 1), iaa |-> T("int", 2)],
           P |-> [x |-> TInt, y |-> TChar, z |-> TBool]]
POrder == <<"x", "y", "z">>

\* may a value of type f go where type t is wanted
Compat(f, t) ==
    /\ f # Err /\ t # Err /\ f # TVoid /\ t # TVoid
    /\ \/ f = t
       \/ f = TChar /\ t = TInt
       \/ IsArr(f) /\ IsArr(t) /\ (f.b = "void" \/ t.b = "void")
       \/ f = T("void", 1) /\ IsRec(t)
       \/ t = T("void", 1) /\ IsRec(f)

Arith(t) == t \in {TInt, TChar}
Widen(t) == IF t = TChar THEN TInt ELSE t

(* ---- expressions: [s |-> text, t |-> type, l |-> may be assigned to] ---- *)
E(s, t, l) == [s |-> s, t |-> t, l |-> l]

ArithOps == {"+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>"}
OrderOps == {"<", "<=", ">", ">="}
EqOps == {"==", "!="}
LogOps == {"&&", "||"}
BinOps == ArithOps \cup OrderOps \cup EqOps \cup LogOps \cup {"=", ","}

BinType(o, a, b) ==
    IF a.t = Err \/ b.t = Err THEN Err
    ELSE IF o \in ArithOps THEN IF Arith(a.t) /\ Arith(b.t) THEN TInt ELSE Err
    ELSE IF o \in OrderOps THEN IF Arith(a.t) /\ Arith(b.t) THEN TBool ELSE Err
    ELSE IF o \in EqOps THEN IF Compat(Widen(a.t), Widen(b.t)) THEN TBool ELSE Err
    ELSE IF o \in LogOps THEN IF a.t = TBool /\ b.t = TBool THEN TBool ELSE Err
    ELSE IF o = "=" THEN IF a.l /\ Compat(b.t, a.t) THEN a.t ELSE Err
    ELSE b.t                                       \* comma
Bin(o, a, b) == E("(" \o a.s \o " " \o o \o " " \o b.s \o ")", BinType(o, a, b), FALSE)

UnOps == {"+", "-", "~", "!", "ord", "chr", "bool"}
UnType(o, a) ==
    CASE o \in {"+", "-", "~"} -> IF Arith(a.t) THEN TInt ELSE Err
      [] o = "!" -> IF a.t = TBool THEN TBool ELSE Err
      [] o = "ord" -> IF a.t \in {TChar, TBool} THEN TInt ELSE Err
      [] o = "chr" -> IF a.t = TInt THEN TChar ELSE Err
      [] o = "bool" -> IF a.t = TInt THEN TBool ELSE Err
Un(o, a) == E(IF o \in {"ord", "chr", "bool"} THEN o \o "(" \o a.s \o ")" ELSE o \o "(" \o a.s \o ")", UnType(o, a), FALSE)

IdxType(a, i) == IF IsArr(a.t) /\ i.t = TInt /\ ~(a.t = T("void", 1)) THEN T(a.t.b, a.t.d - 1) ELSE Err
Idx(a, i) == E("(" \o a.s \o ")[" \o i.s \o "]", IdxType(a, i), TRUE)

DotType(a, f) == IF a.t.d = 0 /\ a.t.b \in StructNames /\ f \in DOMAIN Fields[a.t.b] THEN Fields[a.t.b][f] ELSE Err
Dot(a, f) == E("(" \o a.s \o ")." \o f, DotType(a, f), TRUE)

Par(a) == E("(" \o a.s \o ")", a.t, a.l)

(* ---- operand classes ---- *)
VarTypes == [vi |-> TInt, vc |-> TChar, vb |-> TBool, vs |-> T("S", 0), vp |-> T("P", 0), vo |-> T("O", 0),
             via |-> T("int", 1), vca |-> T("char", 1), vba |-> T("boolean", 1), vsa |-> T("S", 1),
             vpa |-> T("P", 1), voa |-> T("O", 1), vva |-> T("void", 1), viaa |-> T("int", 2), vcaa |-> T("char", 2),
             vvaa |-> T("void", 2), vsaa |-> T("S", 2), viaaa |-> T("int", 3)]
CallTypes == [fi |-> TInt, fc |-> TChar, fb |-> TBool, fv |-> TVoid, fs |-> T("S", 0), fo |-> T("O", 0),
              fia |-> T("int", 1), fca |-> T("char", 1), fva |-> T("void", 1), fsa |-> T("S", 1), fiaa |-> T("int", 2)]
Vars == { E(v, VarTypes[v], TRUE) : v \in DOMAIN VarTypes }
Calls == { E(f \o "()", CallTypes[f], FALSE) : f \in DOMAIN CallTypes }
Consts == { E("1", TInt, FALSE), E("'\\001'", TChar, FALSE), E("true", TBool, FALSE), E("\"s\"", T("char", 1), FALSE),
            E("null", T("void", 1), FALSE), E("sizeof(int)", TInt, FALSE), E("sizeof(S[])", TInt, FALSE),
            E("addrof(vi)", TInt, FALSE), E("addrof(fi)", TInt, FALSE) }
Atoms == Vars \cup Calls \cup Consts

\* for each operator one well-typed application for each type of result and of left operand
Pick(S) == CHOOSE x \in S : TRUE
RepsB == { Pick({ Bin(o, a, b) : b \in { y \in Atoms : BinType(o, a, y) # Err } })
           : <<o, a>> \in { <<o, a>> \in BinOps \X (Vars \cup Consts \cup Calls) :
                             \E y \in Atoms : BinType(o, a, y) # Err } }
RepsC == { Bin(",", E("vi", TInt, TRUE), b) : b \in Atoms }
Reps == { x \in RepsB : x.t # Err } \cup RepsC
        \cup { x \in { Un(o, a) : o \in UnOps, a \in Vars } : x.t # Err }
        \cup { x \in { Idx(a, E("1", TInt, FALSE)) : a \in Atoms } : x.t # Err }
        \cup { x \in { Dot(E("vs", T("S", 0), TRUE), f) : f \in DOMAIN Fields.S } : x.t # Err }
        \cup { Dot(E("fs()", T("S", 0), FALSE), f) : f \in {"i", "sa"} }
        \cup { Par(a) : a \in Vars }
Operands == Atoms \cup Reps

(* ---- contexts ---- *)
Wanted == { VarTypes[v] : v \in DOMAIN VarTypes }
TName(t) == t.b \o (IF t.d = 0 THEN "" ELSE IF t.d = 1 THEN "[]" ELSE IF t.d = 2 THEN "[][]" ELSE "[][][]")

Case(ctx, ty, s, ok) == [ctx |-> ctx, ty |-> ty, s |-> s, ok |-> ok]
\* the cases are built as sequences: [1..n -> case] over products of small sequences
At == SetToSeq(Atoms)
Op == SetToSeq(Operands)
Rp == SetToSeq(Reps)
Bo == SetToSeq(BinOps)
Uo == SetToSeq(UnOps)
Wt == SetToSeq(Wanted)
Prod2(a, b, F(_, _)) == [n \in 1..(Len(a) * Len(b)) |-> F(a[((n - 1) \div Len(b)) + 1], b[((n - 1) % Len(b)) + 1])]
Stm(e) == Case("stmt", "", e.s, e.t # Err)
ElemI == E("1", TInt, FALSE)
ArrI == E("via", T("int", 1), TRUE)
BinPart(o) == LET F(a, b) == Stm(Bin(o, a, b)) IN Prod2(At, At, F)
UnPart == LET F(o, a) == Stm(Un(o, a)) IN Prod2(Uo, Op, F)
IdxPart == LET F(a, i) == Stm(Idx(a, i)) IN Prod2(At, At, F) \o
           (LET G(a, i) == Stm(Idx(a, i)) IN Prod2(<<ArrI>>, Rp, G) \o Prod2(Rp, <<ElemI>>, G))
DotPart == LET F(a, f) == Stm(Dot(a, f)) IN Prod2(Op, <<"i", "c", "n", "sa", "x", "nofield", "vi">>, F)
CondPart == LET F(c, e) == Case(c, "", e.s, e.t = TBool) IN Prod2(<<"if", "while", "do", "forc">>, Op, F)
AnyPart == LET F(c, e) == Case(c, "", e.s, e.t # Err) IN Prod2(<<"stmt", "fori", "foru">>, Op, F)
VarPart == LET F(c, e) == Case(c, "", e.s, e.t \notin {Err, TVoid}) IN Prod2(<<"vararg">>, Op, F)
ConvPart(c) == LET F(t, e) == Case(c, TName(t), e.s, Compat(e.t, t)) IN Prod2(Wt, Op, F)
AssPart == LET F(e, a) == Stm(Bin("=", e, a)) IN
           Prod2(Rp, <<ElemI, E("null", T("void", 1), FALSE), E("'\\001'", TChar, FALSE), E("vb", TBool, TRUE)>>, F)
MixPart == LET F(o, e) == Stm(Bin(o, E("vi", TInt, TRUE), e))
               G(o, e) == Stm(Bin(o, E("vb", TBool, TRUE), e))
               H(o, e) == Stm(Bin(o, E("vs", T("S", 0), TRUE), e))
               K(o, e) == Stm(Bin(o, E("vca", T("char", 1), TRUE), e))
               L(o, e) == Stm(Bin(o, E("vc", TChar, TRUE), e))
           IN Prod2(<<"+", "<", "==", "=">>, Rp, F) \o Prod2(<<"&&", "==", "=">>, Rp, G)
              \o Prod2(<<"==", "=">>, Rp, H) \o Prod2(<<"==", "=">>, Rp, K) \o Prod2(<<"+", "==", "=">>, Rp, L)

(* ---- initialisers of globals ---- *)
\* trees: [k |-> "e", s, t, c] expression (c: constant), "list", "array", with text s
IE(s, t, c) == [k |-> "e", s |-> s, t |-> t, c |-> c, l |-> << >>]
INull == [k |-> "null", s |-> "null", t |-> T("void", 1), c |-> TRUE, l |-> << >>]
IStr == [k |-> "str", s |-> "\"ab\"", t |-> T("char", 1), c |-> TRUE, l |-> << >>]
RECURSIVE JoinS(_)
JoinS(q) == IF Len(q) = 0 THEN "" ELSE IF Len(q) = 1 THEN q[1].s ELSE q[1].s \o ", " \o JoinS(Tail(q))
IL(q) == [k |-> "list", s |-> "{" \o JoinS(q) \o "}", t |-> Err, c |-> FALSE, l |-> q]
IA(q) == [k |-> "array", s |-> "array(" \o JoinS(q) \o ")", t |-> Err, c |-> FALSE, l |-> q]

\* [k "e"] used as an array size: value v > 0
PosSize(i) == i.k = "e" /\ i.c /\ i.t \in {TInt, TChar} /\ i.s \notin {"0", "-1", "1-1"}

Simple(t) == t \in {TInt, TChar, TBool}
RECURSIVE InitOK(_, _)
StructOK(b, i) ==
    \/ i.k = "null"
    \/ /\ i.k = "list" /\ b = "P" /\ Len(i.l) = Len(POrder)
       /\ \A n \in 1..Len(POrder) : InitOK(Fields.P[POrder[n]], i.l[n])
InitOK(t, i) ==
    IF t.d > 0 THEN
        \/ i.k = "null"
        \/ i.k = "str" /\ t = T("char", 1)
        \/ i.k = "array" /\ Len(i.l) \in 1..t.d /\ \A n \in 1..Len(i.l) : PosSize(i.l[n])
        \/ i.k = "list" /\ Len(i.l) > 0 /\ t.b # "void" /\
           (\A n \in 1..Len(i.l) : IF t.d > 1 THEN InitOK(T(t.b, t.d - 1), i.l[n])
                                   ELSE IF Simple(T(t.b, 0)) THEN InitOK(T(t.b, 0), i.l[n])
                                   ELSE StructOK(t.b, i.l[n]))
    ELSE IF Simple(t) THEN i.k = "e" /\ i.c /\ Compat(i.t, t)
    ELSE StructOK(t.b, i)

IConsts == { IE("1", TInt, TRUE), IE("-1", TInt, TRUE), IE("0", TInt, TRUE), IE("1-1", TInt, TRUE), IE("'a'", TChar, TRUE), IE("true", TBool, TRUE),
             IE("1 + 2 * 3", TInt, TRUE), IE("1 < 2", TBool, TRUE), IE("!true", TBool, TRUE), IE("chr(65)", TChar, TRUE), IE("bool(3)", TBool, TRUE),
             IE("ord('a')", TInt, TRUE), IE("'a' == 'b' && true", TBool, TRUE) }
IVars == { IE("vi", TInt, FALSE), IE("vb", TBool, FALSE), IE("vc", TChar, FALSE), IE("fi()", TInt, FALSE), IE("vi + 1", TInt, FALSE), IE("-vi", TInt, FALSE),
           IE("vi == 1", TBool, FALSE), IE("via[0]", TInt, FALSE), IE("vs.i", TInt, FALSE), IE("vs", T("S", 0), FALSE), IE("via", T("int", 1), FALSE) }
I0 == IConsts \cup IVars \cup {INull, IStr}
Sizes == { IE("1", TInt, TRUE), IE("2", TInt, TRUE), IE("0", TInt, TRUE), IE("1-1", TInt, TRUE), IE("true", TBool, TRUE), IE("vi", TInt, FALSE), IE("1 + 1", TInt, TRUE), IE("'a'", TChar, TRUE) }
I1 == I0 \cup { IL(<<i>>) : i \in I0 } \cup { IL(<<i, j>>) : i \in {IE("1", TInt, TRUE), IE("'a'", TChar, TRUE), INull, IStr}, j \in I0 }
      \cup { IA(<<i>>) : i \in Sizes }
      \cup { IA(<<i, j>>) : i \in Sizes, j \in Sizes }
      \cup { IA(<<i, i, j>>) : i \in {IE("2", TInt, TRUE)}, j \in Sizes }
      \cup { IL(<<i, j, k>>) : i \in {IE("1", TInt, TRUE), IE("'a'", TChar, TRUE), IE("true", TBool, TRUE), INull},
                               j \in {IE("1", TInt, TRUE), IE("'a'", TChar, TRUE), IE("true", TBool, TRUE), INull},
                               k \in {IE("1", TInt, TRUE), IE("'a'", TChar, TRUE), IE("true", TBool, TRUE), INull} }
      \cup { IL(<<IE("1", TInt, TRUE), IE("'a'", TChar, TRUE), IE("true", TBool, TRUE), IE("1", TInt, TRUE)>>) }
P3 == IL(<<IE("1", TInt, TRUE), IE("'a'", TChar, TRUE), IE("true", TBool, TRUE)>>)
I2Base == { IL(<<IE("1", TInt, TRUE)>>), IL(<<IE("'a'", TChar, TRUE)>>), IL(<<IE("true", TBool, TRUE)>>), IL(<<INull>>), IL(<<IE("vi", TInt, FALSE)>>),
            IA(<<IE("2", TInt, TRUE)>>), IA(<<IE("2", TInt, TRUE), IE("2", TInt, TRUE)>>), INull, IStr, P3, IE("1", TInt, TRUE),
            IL(<<P3>>), IL(<<IStr>>), IL(<<IL(<<IE("1", TInt, TRUE)>>)>>), IL(<<IA(<<IE("2", TInt, TRUE)>>)>>) }
I2 == { IL(<<i>>) : i \in I2Base } \cup { IL(<<i, j>>) : i \in I2Base, j \in I2Base }
GTypes == { VarTypes[v] : v \in DOMAIN VarTypes \ {"vva", "vvaa", "vo", "voa"} }
GInitPart(S) == LET F(t, i) == Case("ginit", TName(t), i.s, InitOK(t, i)) IN Prod2(SetToSeq(GTypes), SetToSeq(S), F)

\* declared types
DeclTypes == { T(b, d) : b \in {"int", "char", "boolean", "void", "S", "O", "interrupt"}, d \in 0..3 }
DeclPart == LET F(c, t) == Case(c, TName(t), "", t.b # "interrupt" /\ t # TVoid)
                G(c, t) == Case(c, TName(t), "", t.b # "interrupt")
                H(c, t) == Case(c, TName(t), "", t.b # "interrupt" /\ t # TVoid /\ t.b # "O")
            IN Prod2(<<"gdecl", "ldecl", "prm", "fld", "pprm">>, SetToSeq(DeclTypes), F)
               \o Prod2(<<"fdecl">>, SetToSeq(DeclTypes), G)
               \o Prod2(<<"sizeof">>, SetToSeq({ t \in DeclTypes : t.b \notin {"void", "interrupt"} }), H)

Parts == << "+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "<", "<=", ">", ">=", "==", "!=", "&&", "||", "=", ",",
            "un", "idx", "dot", "cond", "any", "var", "ret", "arg", "init", "ass", "mix", "g1", "g2", "decl" >>
Part(p) == CASE p = "un" -> UnPart [] p = "idx" -> IdxPart [] p = "dot" -> DotPart [] p = "cond" -> CondPart
             [] p = "any" -> AnyPart [] p = "var" -> VarPart [] p \in {"ret", "arg", "init"} -> ConvPart(p)
             [] p = "ass" -> AssPart [] p = "mix" -> MixPart [] p = "g1" -> GInitPart(I1) [] p = "g2" -> GInitPart(I2)
             [] p = "decl" -> DeclPart [] OTHER -> BinPart(p)

(***************************************************************************)
(* Sanity of the judgement itself                                           *)
(***************************************************************************)
ASSUME \A a \in Atoms : a.t # Err
ASSUME \A f, t \in Wanted : Compat(f, t) /\ ~Arith(f) => Compat(t, f)       \* only char -> int is one-way
ASSUME \A t \in Wanted : Compat(t, t)

\* one step writes one part; the partition is for running several TLC processes
Digit(c) == CHOOSE d \in 0..9 : ToString(d) = c
NPart == 8
PartNo == Digit(IOEnv.PART)
VARIABLES k, total
Init == k \in { i \in 1..Len(Parts) : i % NPart = PartNo } /\ total = 0
Next == /\ total = 0
        /\ LET c == Part(Parts[k]) IN
           /\ JsonSerialize(IOEnv.OUT \o "/" \o ToString(k) \o ".json", c)
           /\ total' = Len(c)
        /\ k' = k
Spec == Init /\ [][Next]_<<k, total>>
=============================================================================
