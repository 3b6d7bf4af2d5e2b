------------------------------- MODULE VmProd -------------------------------
(***************************************************************************)
(* The source machine, then the virtual stack machine running the compiled *)
(* program: every observable event of the compiled program must be the     *)
(* next event of the source program, and nothing may be missing at the end.*)
(***************************************************************************)
EXTENDS Cmm, VM

VARIABLES te, tin, tst
tacv == <<vvars, te, tin, tst>>

Im == P.tac

Init == /\ SInit
        /\ mpc = 0 /\ S = <<>> /\ A = <<>> /\ L = [l |-> <<>>, p |-> <<>>]
        /\ M = <<>> /\ rr = VU /\ fs = <<>>
        /\ te = 0 /\ tin = 0 /\ tst = 0

StartVm ==
  /\ SrcDone
  /\ ph' = "vm"
  /\ ev' = Append(ev, <<0, Top(V)>>)
  /\ mpc' = Im.entry /\ S' = <<>> /\ A' = <<>> /\ L' = [l |-> <<>>, p |-> <<>>]
  /\ M' = Im.objs /\ rr' = VU /\ fs' = <<>>
  /\ te' = 0 /\ tin' = 0 /\ tst' = 0
  /\ UNCHANGED <<pid, C, V, F, G, H, nin, st, info, steps>>

Stop(s, i) == /\ st' = s /\ info' = i
              /\ UNCHANGED <<pid, ph, C, V, F, G, H, ev, nin, steps>>
              /\ UNCHANGED tacv
Stuck(why) == Stop("bad", <<why, mpc, te>>)
Keep == UNCHANGED <<pid, ph, C, V, F, G, H, ev, nin, st, info, steps>> /\ tst' = tst + 1

\* go to the next instruction with operand stack s
Nx(s) == /\ mpc' = mpc + 1 /\ S' = s
         /\ UNCHANGED <<A, L, M, rr, fs, te, tin>> /\ Keep
PushOr(x, s) == IF x = Bad THEN Stuck("operator") ELSE Nx(<<x, s>>)

IsRef(x) == x >= VRef
RECURSIVE VStr(_, _)
VStr(e, i) == IF i > Len(e) \/ e[i] = VU THEN <<-2>>
              ELSE IF e[i] = 0 THEN <<>> ELSE <<e[i]>> \o VStr(e, i + 1)
VArg(kd, x) == IF kd = "s"
               THEN IF VOk(x, 0, 0) THEN <<-1>> \o VStr(M[VObj(x)].e, 1) ELSE <<-2>>
               ELSE IF x = VU \/ IsRef(x) THEN <<-2>> ELSE <<x>>
RECURSIVE VArgs(_, _, _)
VArgs(kds, as, i) ==
  IF i > Len(as) THEN <<>>
  ELSE VArg(kds[IF i > Len(kds) THEN Len(kds) ELSE i], as[i]) \o VArgs(kds, as, i + 1)

\* the n arguments of a call, first one first
ArgsOf(n) == VTake(A, n)

Un == [NEG |-> "neg", BNOT |-> "bnot", NOT |-> "not", CHR |-> "chr", BOOL |-> "bool"]
Bin == [ADD |-> "add", SUB |-> "sub", SHL |-> "shl", SHR |-> "shr", BAND |-> "and",
        BOR |-> "or", BXOR |-> "xor", MUL |-> "mul", DIV |-> "div", MOD |-> "mod",
        LT |-> "lt", LE |-> "le", GT |-> "gt", GE |-> "ge", EQ |-> "eq", NE |-> "ne"]

Binary(o, a, b) ==
  IF IsRef(a) \/ IsRef(b)
  THEN CASE o = "EQ" -> B2I(a = b) [] o = "NE" -> B2I(a # b) [] OTHER -> Bad
  ELSE Op2(Bin[o], a, b, 0)

Jump(l) == /\ mpc' = l /\ UNCHANGED <<A, L, M, rr, fs, te, tin>> /\ Keep

VmStep ==
  IF mpc \notin 1..Len(Im.code) THEN Stuck("pc") ELSE
  LET i == Im.code[mpc] o == i.o n == i.n
      t == S[1] s1 == S[2] IN
  IF i.k > 0 /\ ~VHas(S, i.k) THEN Stuck("stack underflow") ELSE
  CASE o = "LDC" -> Nx(<<n, S>>)
    [] o = "LDL" -> IF n \notin 1..Len(L.l) THEN Stuck("local")
                    ELSE Nx(<<L.l[n], S>>)
    [] o = "LDP" -> IF n \notin 1..Len(L.p) THEN Stuck("parameter")
                    ELSE Nx(<<L.p[n], S>>)
    [] o = "LDG" -> Nx(<<M[n].e[1], S>>)
    [] o = "STL" -> IF n \notin 1..Len(L.l) THEN Stuck("local")
                    ELSE /\ L' = [L EXCEPT !.l[n] = t] /\ mpc' = mpc + 1
                         /\ UNCHANGED <<S, A, M, rr, fs, te, tin>> /\ Keep
    [] o = "STP" -> IF n \notin 1..Len(L.p) THEN Stuck("parameter")
                    ELSE /\ L' = [L EXCEPT !.p[n] = t] /\ mpc' = mpc + 1
                         /\ UNCHANGED <<S, A, M, rr, fs, te, tin>> /\ Keep
    [] o = "STG" -> /\ M' = [M EXCEPT ![n].e[1] = t] /\ mpc' = mpc + 1
                    /\ UNCHANGED <<S, A, L, rr, fs, te, tin>> /\ Keep
    [] o = "LDW" \/ o = "LDB" ->
         LET r == s1[1] w == IF o = "LDW" THEN 1 ELSE 0 IN
         IF ~VOk(r, t, w) THEN Stuck("load")
         ELSE Nx(<<M[VObj(r)].e[t + 1], s1[2]>>)
    [] o = "STW" \/ o = "STB" ->
         LET r == s1[1] w == IF o = "STW" THEN 1 ELSE 0
             x == s1[2][1] IN
         IF ~VOk(r, t, w) \/ x = VU \/ (w = 0 /\ x \notin 0..255) THEN Stuck("store")
         ELSE /\ M' = [M EXCEPT ![VObj(r)].e[t + 1] = x]
              /\ mpc' = mpc + 1 /\ S' = s1[2]
              /\ UNCHANGED <<A, L, rr, fs, te, tin>> /\ Keep
    [] o \in DOMAIN Un ->
         IF t = VU \/ IsRef(t) \/ (o = "NOT" /\ t \notin 0..1) THEN Stuck("operand")
         ELSE PushOr(Op1(Un[o], t, 0), s1)
    [] o \in DOMAIN Bin ->
         IF t = VU \/ s1[1] = VU THEN Stuck("operand")
         ELSE PushOr(Binary(o, s1[1], t), s1[2])
    [] o = "POP" -> Nx(s1)
    [] o = "JMP" -> Jump(n) /\ UNCHANGED S
    [] o = "JT" -> IF t \notin 0..1 THEN Stuck("condition")
                   ELSE S' = s1 /\ Jump(IF t = 1 THEN n ELSE mpc + 1)
    [] o = "JF" -> IF t \notin 0..1 THEN Stuck("condition")
                   ELSE S' = s1 /\ Jump(IF t = 0 THEN n ELSE mpc + 1)
    [] o = "ARG" -> /\ A' = <<t, A>> /\ S' = s1 /\ mpc' = mpc + 1
                    /\ UNCHANGED <<L, M, rr, fs, te, tin>> /\ Keep
    [] o = "MREG" -> /\ rr' = t /\ S' = s1 /\ mpc' = mpc + 1
                     /\ UNCHANGED <<A, L, M, fs, te, tin>> /\ Keep
    [] o = "CALLF" \/ o = "CALLP" ->
         IF VHeight(A) < n THEN Stuck("arguments")
         ELSE IF i.x > 0
         THEN /\ mpc' = i.x
              /\ L' = [l |-> <<>>, p |-> ArgsOf(n)]
              /\ A' = <<>> /\ S' = <<>> /\ rr' = VU
              /\ fs' = <<<<mpc + 1, S, VDrop(A, n), L, o = "CALLF">>, fs>>
              /\ UNCHANGED <<M, te, tin>> /\ Keep
         ELSE LET f == P.funcs[-i.x]
                  e == <<-i.x>> \o VArgs(f.args, ArgsOf(n), 1)
                  x == ev[te + 1] IN
              IF te + 1 > Len(ev) THEN Stuck("extra event")
              ELSE IF e # x THEN Stop("bad", <<"event", mpc, te, e, x>>)
              ELSE IF (o = "CALLF") # (f.rk # "v") THEN Stuck("kind of call")
              ELSE /\ te' = te + 1 /\ mpc' = mpc + 1 /\ A' = VDrop(A, n)
                   /\ CASE f.rk = "i" -> /\ S' = <<P.inp[(tin % Len(P.inp)) + 1], S>>
                                         /\ tin' = tin + 1 /\ M' = M
                        [] f.rk = "m" -> /\ M' = Append(M, [w |-> f.mw, e |->
                                               [q \in 1..(e[2] \div f.mu) |-> VU]])
                                         /\ S' = <<VRef + Len(M) + 1, S>> /\ tin' = tin
                        [] OTHER -> S' = S /\ tin' = tin /\ M' = M
                   /\ UNCHANGED <<L, rr, fs>> /\ Keep
    [] o = "ENTRY" \/ o = "ENTRYK" ->    \* without and with -K
       IF (o = "ENTRY") # (P.chk = 1) THEN Stuck("entry") ELSE
         /\ L' = [L EXCEPT !.l = [q \in 1..n |-> VU]] /\ mpc' = mpc + 1
         /\ UNCHANGED <<S, A, M, rr, fs, te, tin>> /\ Keep
    [] o = "RET" ->
         IF S # <<>> THEN Stuck("operands left behind")
         ELSE IF A # <<>> THEN Stuck("arguments left behind")
         ELSE IF fs = <<>>
         THEN IF te + 1 # Len(ev) THEN Stuck("missing event")
              ELSE IF P.vmain = 0 /\ rr # ev[Len(ev)][2]
              THEN Stop("bad", <<"exit value", rr, ev[Len(ev)]>>)
              ELSE Stop("ok", <<>>)
         ELSE LET c == fs[1] IN
              IF c[5] /\ rr = VU THEN Stuck("no return value")
              ELSE /\ mpc' = c[1] /\ A' = c[3] /\ L' = c[4] /\ fs' = fs[2]
                   /\ S' = IF c[5] THEN <<rr, c[2]>> ELSE c[2]
                   /\ rr' = VU
                   /\ UNCHANGED <<M, te, tin>> /\ Keep
    [] OTHER -> Stuck("instruction")

VmNext == /\ ph = "vm" /\ st = "run"
          /\ IF tst > 2000 + 40 * steps THEN Stop("bad", <<"too long">>) ELSE VmStep

SrcPart == SrcNext /\ UNCHANGED tacv
Report == st # "run" => PrintT(<<"V", P.id, st, info, steps, te>>)
Next == SrcPart \/ StartVm \/ VmNext
NoViolation == st # "bad"
=============================================================================
