----------------------------- MODULE TacProd -----------------------------
(***************************************************************************)
(* The source machine and the TaC machine running the compiled program,    *)
(* one after the other: every observable event of the compiled program     *)
(* must be the next event of the source program, and at the end nothing    *)
(* may be missing.                                                         *)
(***************************************************************************)
EXTENDS Cmm, TaC

VARIABLES te, tin, hp, tst
allvars == <<pid, ph, svars, tvars, te, tin, hp, tst>>
tacv == <<pc, R, fl, D, K, sh, te, tin, hp, tst>>

Im == P.tac

Init == /\ SInit
        /\ pc = 0 /\ R = NoReg /\ fl = NoFlags /\ D = <<>> /\ K = <<>> /\ sh = <<>>
        /\ te = 0 /\ tin = 0 /\ hp = 0 /\ tst = 0

\* The source program is finished: its exit value is the last event
StartTac ==
  /\ SrcDone
  /\ ph' = "tac"
  /\ ev' = Append(ev, <<0, Top(V)>>)
  /\ pc' = Im.entry /\ R' = TInitR /\ fl' = NoFlags /\ D' = Im.data /\ K' = TInitK
  /\ sh' = Push(<<0, SavedOf([TInitR EXCEPT ![SPr] = StkTop]), 0>>, Nil)
  /\ te' = 0 /\ tin' = 0 /\ hp' = Im.heap /\ tst' = 0
  /\ UNCHANGED <<pid, C, V, F, G, H, nin, st, info, steps>>

Stop(s, i) == /\ st' = s /\ info' = i
              /\ UNCHANGED <<pid, ph, C, V, F, G, H, ev, nin, steps>>
              /\ UNCHANGED tacv
Stuck(why) == Stop("bad", <<why, pc, te>>)

Keep == UNCHANGED <<pid, ph, C, V, F, G, H, ev, nin, st, info, steps>> /\ tst' = tst + 1

SetR(i, v) == R' = [R EXCEPT ![i] = v]

RECURSIVE TStr(_)
TStr(a) == LET b == RdBt(Im, a) IN
           IF b < 0 THEN <<-2>> ELSE IF b = 0 THEN <<>> ELSE <<b>> \o TStr(a + 1)

TArg(kd, w) == IF w < 0 THEN <<-2>>
               ELSE IF kd = "s" THEN <<-1>> \o TStr(w) ELSE <<S16(w)>>
RECURSIVE TArgs(_, _, _)
TArgs(kds, i, n) ==
  IF i > n THEN <<>>
  ELSE TArg(kds[IF i > Len(kds) THEN Len(kds) ELSE i],
            RdWd(Im, R[SPr] + 2 * (i - 1)))
       \o TArgs(kds, i + 1, n)

Clob == [i \in 1..NReg |-> IF i <= 3 THEN U ELSE R[i]]

\* number of stack checks the current function has made; P.chk is what it must be
\* (1, or 0 for a program compiled with -K) before anything is called and at the end
Checked == Top(sh)[3] = P.chk

ExtCall(f, fn) ==
  LET n == IF f.va = 0 THEN Len(f.args)
           ELSE LET c == RdWd(Im, R[SPr]) IN 1 + (IF c \in 0..20 THEN c ELSE 0)
      e == <<fn>> \o TArgs(f.args, 1, n)
      x == ev[te + 1] IN
  IF te + 1 > Len(ev) THEN Stuck("extra event")
  ELSE IF ~Checked THEN Stuck("no stack check")
  ELSE IF e # x THEN Stop("bad", <<"event", pc, te, e, x>>)
  ELSE IF f.rk = "m" /\ hp + e[2] * f.esz > Im.dbase + 2 * Len(D)
  THEN Stop("unspec", <<"heap">>)
  ELSE /\ te' = te + 1 /\ pc' = pc + 1 /\ fl' = NoFlags
       /\ CASE f.rk = "i" -> /\ R' = [Clob EXCEPT ![1] = U16(P.inp[(tin % Len(P.inp)) + 1])]
                             /\ tin' = tin + 1 /\ hp' = hp
            [] f.rk = "m" -> LET sz == e[2] * f.esz IN
                             /\ R' = [Clob EXCEPT ![1] = hp]
                             /\ hp' = hp + sz + (sz % 2) + 2 /\ tin' = tin
            [] f.rk = "a" -> \* the place of the arguments of the calling function
                             /\ R' = [Clob EXCEPT ![1] = U16(R[FPr] + 4)]
                             /\ hp' = hp /\ tin' = tin
            [] OTHER -> /\ R' = Clob /\ tin' = tin /\ hp' = hp
       /\ UNCHANGED <<D, K, sh>>
       /\ Keep

TacStep ==
  IF pc \notin 1..Len(Im.code) THEN Stuck("pc") ELSE
  LET i == Im.code[pc] o == i.o IN
  CASE o = "LD" ->
         LET w == Opnd(Im, i) IN
         IF w = ErrW THEN Stuck("load")
         ELSE SetR(i.r, w) /\ pc' = pc + 1 /\ UNCHANGED <<fl, D, K, sh, te, tin, hp>> /\ Keep
    [] o = "ST" ->
         LET byt == i.m = "b"
             a == CASE i.m = "a" -> i.v
                    [] i.m = "x" -> IF R[i.x] = U THEN 1 ELSE U16(R[i.x] + i.v)
                    [] byt -> IF R[i.x] = U THEN 0 ELSE R[i.x]
                    [] OTHER -> 1
             inD == InData(Im, a)
             w == R[i.r] IN
         IF ~(IF byt THEN OkWrB(Im, a) ELSE OkWr(Im, a)) \/ (byt /\ w = U) THEN Stuck("store")
         ELSE /\ IF inD
                 THEN /\ D' = [D EXCEPT ![(a - Im.dbase) \div 2 + 1] =
                                  IF byt THEN MixB(@, a, w) ELSE w]
                      /\ K' = K
                 ELSE /\ K' = [K EXCEPT ![(StkTop - a + (IF byt THEN 1 ELSE 0)) \div 2] =
                                  IF byt THEN MixB(@, a, w) ELSE w]
                      /\ D' = D
              /\ pc' = pc + 1 /\ UNCHANGED <<R, fl, sh, te, tin, hp>> /\ Keep
    [] o \in AluOps ->
         LET b == Opnd(Im, i) a == R[i.r] IN
         IF b < 0 \/ a < 0 THEN Stuck("undefined operand")
         ELSE IF b = 0 /\ o \in {"DIV", "MOD"} THEN Stuck("div0")
         ELSE LET q == Alu(o, a, b) IN
              /\ (IF o = "CMP" THEN R' = R ELSE SetR(i.r, q[1]))
              /\ fl' = q[2]
              /\ pc' = pc + 1 /\ UNCHANGED <<D, K, sh, te, tin, hp>> /\ Keep
    [] o \in JmpOps ->
         IF o # "JMP" /\ ~fl.k THEN Stuck("undefined flags")
         ELSE /\ pc' = IF Taken(o, fl) THEN i.v ELSE pc + 1
              /\ UNCHANGED <<R, fl, D, K, sh, te, tin, hp>> /\ Keep
    [] o = "PUSH" ->
         LET a == R[SPr] - 2 IN
         IF a < StkTop - 2 * StkWords THEN Stop("unspec", <<"stack depth">>)
         ELSE /\ K' = [K EXCEPT ![(StkTop - a) \div 2] = R[i.r]]
              /\ SetR(SPr, a)
              /\ pc' = pc + 1 /\ UNCHANGED <<fl, D, sh, te, tin, hp>> /\ Keep
    [] o = "POP" ->
         LET w == RdWd(Im, R[SPr]) IN
         IF w = ErrW THEN Stuck("pop")
         ELSE /\ R' = [[R EXCEPT ![SPr] = @ + 2] EXCEPT ![i.r] = w]
              /\ pc' = pc + 1 /\ UNCHANGED <<fl, D, K, sh, te, tin, hp>> /\ Keep
    [] o = "CALL" ->
         IF i.v > 0
         THEN LET a == R[SPr] - 2 IN
              IF ~Checked THEN Stuck("no stack check")
              ELSE IF a < StkTop - 2 * StkWords THEN Stop("unspec", <<"stack depth">>)
              ELSE /\ K' = [K EXCEPT ![(StkTop - a) \div 2] = pc + 1]
                   /\ SetR(SPr, a)
                   /\ sh' = Push(<<pc + 1, Saved, 0>>, sh)
                   /\ pc' = i.v /\ fl' = NoFlags
                   /\ UNCHANGED <<D, te, tin, hp>> /\ Keep
         ELSE IF i.v = 0        \* __stkChk may change the scratch registers
         THEN /\ fl' = NoFlags /\ pc' = pc + 1 /\ R' = Clob
              /\ sh' = Push([Top(sh) EXCEPT ![3] = @ + 1], Pop(sh))
              /\ UNCHANGED <<D, K, te, tin, hp>> /\ Keep
         ELSE ExtCall(P.funcs[-i.v], -i.v)
    [] o = "RET" ->
         LET w == RdWd(Im, R[SPr]) r1 == R[SPr] + 2 c == Top(sh) IN
         IF w # c[1] \/ [Saved EXCEPT ![1] = r1] # c[2] THEN Stuck("return context")
         ELSE IF ~Checked THEN Stuck("stack checks")
         ELSE IF Pop(sh) = Nil
         THEN IF te + 1 # Len(ev) THEN Stuck("missing event")
              ELSE IF R[1] = U \/ (P.vmain = 0 /\ S16(R[1]) # ev[Len(ev)][2])
              THEN Stop("bad", <<"exit value", R[1], ev[Len(ev)]>>)
              ELSE Stop("ok", <<>>)
         ELSE /\ SetR(SPr, r1) /\ pc' = w /\ sh' = Pop(sh) /\ fl' = NoFlags
              /\ UNCHANGED <<D, K, te, tin, hp>> /\ Keep
    [] OTHER -> Stuck("operation")

TacNext == /\ ph = "tac" /\ st = "run"
           /\ IF tst > 2000 + 40 * steps THEN Stop("bad", <<"too long">>) ELSE TacStep

SrcPart == SrcNext /\ UNCHANGED tacv

\* Verdict line of a finished program (read by the harness)
Report == st # "run" => PrintT(<<"V", P.id, st, info, steps, te>>)

Next == SrcPart \/ StartTac \/ TacNext
NoViolation == st # "bad"
=============================================================================
