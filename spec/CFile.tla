------------------------------- MODULE CFile -------------------------------
(***************************************************************************)
(* Streams and files of a program translated to C.  A position in a file   *)
(* is a pair <<q, r>> (q * 65536 + r), so that offsets may go beyond 32    *)
(* bits.  A file has a size and the bytes written to it; bytes in between  *)
(* are 0.  Standard output, standard error and standard input are streams  *)
(* on the files OUT, ERR and IN.                                           *)
(***************************************************************************)
EXTENDS Trace

VARIABLES fs,      \* name -> [size, dat]
          st       \* number of a stream -> [name, rd, wr, app, pos, err]
vars == <<h, n, fs, st>>

K == 65536
Plus(p, k) == <<p[1] + (p[2] + k) \div K, (p[2] + k) % K>>
Less(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2])
MaxP(p, q) == IF Less(p, q) THEN q ELSE p
Byte(f, p) == IF p \in DOMAIN f.dat THEN f.dat[p] ELSE 0
RECURSIVE Write(_, _, _)
Write(f, p, s) == IF s = <<>> THEN f
                  ELSE Write([size |-> MaxP(f.size, Plus(p, 1)), dat |-> (p :> Head(s)) @@ f.dat], Plus(p, 1), Tail(s))
Empty == [size |-> <<0, 0>>, dat |-> <<>>]
Whole(s) == [size |-> <<0, Len(s)>>, dat |-> [p \in {<<0, i>> : i \in 0..Len(s) - 1} |-> s[p[2] + 1]]]
R == 114  W == 119  A == 97  U == 43
CanRead(m) == m[1] = R \/ Len(m) > 1
CanWrite(m) == m[1] # R \/ Len(m) > 1

\* opening: the directory holds the files fs and nothing below a file or a missing directory
Dir == <<100>>
Missing(e) == \E i \in 1..Len(e.name) : e.name[i] = 47
Open(e) ==
  LET there == e.name \in DOMAIN fs
      okay == ~Missing(e) /\ e.name # Dir /\ (e.mode[1] = R => there)
  IN /\ e.r = (IF okay THEN 1 ELSE 0)
     /\ fs' = IF okay /\ (e.mode[1] = W \/ ~there) THEN (e.name :> Empty) @@ fs ELSE fs
     /\ st' = IF ~okay THEN st
              ELSE (e.s :> [name |-> e.name, rd |-> CanRead(e.mode), wr |-> CanWrite(e.mode), app |-> e.mode[1] = A,
                            pos |-> <<0, 0>>, err |-> FALSE]) @@ st

S(e) == st[e.s]
F(e) == fs[S(e).name]
\* n bytes written to stream s; the result says whether it failed
Out(e, s, bytes, failed, done) ==
  IF ~st[s].wr THEN /\ e.r = failed /\ st' = [st EXCEPT ![s].err = TRUE] /\ UNCHANGED fs
  ELSE LET f == fs[st[s].name]
           p == IF st[s].app THEN f.size ELSE st[s].pos
       IN /\ e.r = done
          /\ fs' = [fs EXCEPT ![st[s].name] = Write(f, p, bytes)]
          /\ st' = [st EXCEPT ![s].pos = Plus(p, Len(bytes))]

End(e) == ~Less(S(e).pos, F(e).size)
RECURSIVE Line(_, _, _)
\* at most k bytes from p, up to a newline
Line(f, p, k) == IF k = 0 \/ ~Less(p, f.size) THEN <<>>
                 ELSE IF Byte(f, p) = 10 THEN <<10>> ELSE <<Byte(f, p)>> \o Line(f, Plus(p, 1), k - 1)
Fill(s, k) == [i \in 1..k |-> IF i <= Len(s) THEN s[i] ELSE 85]
Same == UNCHANGED <<fs, st>>

Do(e) ==
  \/ e.f = "fopen" /\ Open(e)
  \/ e.f = "fclose" /\ e.r = 0 /\ st' = [x \in DOMAIN st \ {e.s} |-> st[x]] /\ UNCHANGED fs
  \/ e.f \in {"fputc", "fputs"} /\ Out(e, e.s, e.text, 1, 0)
  \/ e.f \in {"putchar", "puts"} /\ Out(e, 6, e.text, 1, 0)
  \/ e.f = "fprintf" /\ Out(e, e.s, e.text, 0, Len(e.text))
  \/ e.f = "printf" /\ Out(e, 6, e.text, 0, Len(e.text))
  \/ /\ e.f = "fgetc" /\ ~End(e) /\ e.r = Byte(F(e), S(e).pos)
     /\ st' = [st EXCEPT ![e.s].pos = Plus(@, 1)] /\ UNCHANGED fs
  \/ /\ e.f = "getchar" /\ ~End(e) /\ e.r = Byte(F(e), S(e).pos)
     /\ st' = [st EXCEPT ![5].pos = Plus(@, 1)] /\ UNCHANGED fs
  \/ /\ e.f = "fgets" /\ UNCHANGED fs
     /\ IF ~S(e).rd THEN e.r = 0 /\ st' = [st EXCEPT ![e.s].err = TRUE]
        ELSE LET l == Line(F(e), S(e).pos, e.n - 1)
             IN /\ e.r = (IF l = <<>> THEN 0 ELSE 1)
                /\ e.b = (IF l = <<>> THEN Fill(<<>>, Len(e.b)) ELSE Fill(Append(l, 0), Len(e.b)))
                /\ st' = [st EXCEPT ![e.s].pos = Plus(@, Len(l))]
  \/ e.f = "feof" /\ e.r = (IF End(e) THEN 1 ELSE 0) /\ Same
  \/ e.f = "ferror" /\ e.r = (IF S(e).err THEN 1 ELSE 0) /\ Same
  \/ e.f = "fflush" /\ e.r = 0 /\ Same
  \/ /\ e.f = "fseek" /\ UNCHANGED fs
     /\ IF e.off[1] < 0 THEN e.r = 1 /\ UNCHANGED st
        ELSE e.r = 0 /\ st' = [st EXCEPT ![e.s].pos = <<e.off[1] * K + e.off[2], e.off[3]>>]
  \/ /\ e.f = "fsize" /\ Same
     /\ IF e.name \in DOMAIN fs
        THEN LET z == fs[e.name].size IN e.r = 0 /\ e.size = <<z[1] \div K, z[1] % K, z[2]>>
        ELSE e.r = 1
  \/ /\ e.f = "perror"       \* the message begins with the text; what follows is up to the system
     /\ LET f == fs[<<69, 82, 82>>]
            k == Len(e.text)
        IN /\ Len(e.said) > k /\ SubSeq(e.said, 1, k) = e.text /\ e.said[Len(e.said)] = 10
           /\ fs' = [fs EXCEPT ![<<69, 82, 82>>] = Write(f, f.size, e.said)]
           /\ st' = [st EXCEPT ![7].pos = Plus(@, Len(e.said))]
  \* the end of the program: everything written is in the files
  \/ /\ e.f = "end" /\ Same /\ e.r = e.status % 256
     /\ {e.names[i] : i \in 1..Len(e.names)} = DOMAIN fs
     /\ \A i \in 1..Len(e.names) :
          LET f == fs[e.names[i]]
              g == e.files[i]
          IN /\ g.size = f.size
             /\ {<<g.dat[j][1], g.dat[j][2], g.dat[j][3]>> : j \in 1..Len(g.dat)}
                = {<<p[1], p[2], f.dat[p]>> : p \in {x \in DOMAIN f.dat : f.dat[x] # 0}}

Init ==
  /\ TInit
  /\ fs = [x \in {H[h].files[i][1] : i \in 1..Len(H[h].files)} |->
             Whole(H[h].files[CHOOSE i \in 1..Len(H[h].files) : H[h].files[i][1] = x][2])]
  /\ st = 5 :> [name |-> <<73, 78>>, rd |-> TRUE, wr |-> FALSE, app |-> FALSE, pos |-> <<0, 0>>, err |-> FALSE]
          @@ 6 :> [name |-> <<79, 85, 84>>, rd |-> FALSE, wr |-> TRUE, app |-> FALSE, pos |-> <<0, 0>>, err |-> FALSE]
          @@ 7 :> [name |-> <<69, 82, 82>>, rd |-> FALSE, wr |-> TRUE, app |-> FALSE, pos |-> <<0, 0>>, err |-> FALSE]
Next == More /\ (LET e == Ev IN Do(e)) /\ Take
Spec == Init /\ [][Next]_vars
=============================================================================
