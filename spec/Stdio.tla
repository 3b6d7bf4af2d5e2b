------------------------------- MODULE Stdio -------------------------------
(***************************************************************************)
(* Streams of the TaC library between a program and the kernel.            *)
(*                                                                         *)
(* A history is the sequence of calls of the program, of the system calls  *)
(* made inside them, and of their results.  State: for every stream what   *)
(* the program has written that the kernel has not got yet (pend), what    *)
(* the kernel has delivered that the program has not got yet (ahead), its  *)
(* error and end-of-file state; the call in progress (cur) with the system *)
(* calls it has made (seen).                                               *)
(*                                                                         *)
(* What is left open: how much a stream buffers (up to 128 bytes; nothing  *)
(* on stderr, nothing after a newline on the console), when it reads       *)
(* ahead, and whether it retries after a short write.                      *)
(***************************************************************************)
EXTENDS Trace

VARIABLES s,      \* streams: 1 stdin, 2 stdout, 3 stderr, 4.. in the order of fopen
          cur,    \* call in progress, or [f |-> "-"]
          seen,   \* system calls of the call in progress
          got,    \* what fgets has taken from earlier buffers
          errno, st
vars == <<h, n, s, cur, seen, got, errno, st>>

EUMODE == -27
EUBADF == -28
EUEOF == -29
EUNFILE == -30
EUSTDIO == -31
ENOENT == -2
Slots == 8
Limit == 128

RD == 0
Strm(fd, md, tty) == [open |-> TRUE, fd |-> fd, md |-> md, tty |-> tty, pend |-> <<>>, ahead |-> <<>>, err |-> FALSE, eof |-> FALSE]
None == [f |-> "-"]
B(x) == IF x THEN 1 ELSE 0
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Drop(a, k) == SubSeq(a, k + 1, Len(a))
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Has(a, x) == \E i \in 1..Len(a) : a[i] = x
IsOpen(i) == i \in 1..Len(s) /\ s[i].open

OutF == {"fputc", "fputs", "putchar", "puts", "perror"}
InF == {"fgetc", "fgets", "getchar", "feof"}
StrF == OutF \cup InF \cup {"fflush", "fclose", "fseek", "ferror"}
\* does this call touch its stream (an empty string does not)
Touches(c) == c.f \in StrF /\ ~(c.f \in OutF /\ c.text = <<>>)

\* what a wrong use of a stream ends the program with; 0: none
Misuse(c) ==
  IF c.f = "fopen" THEN (IF c.mode \in {<<114>>, <<119>>, <<97>>} THEN 0 ELSE EUMODE)
  ELSE IF ~Touches(c) THEN 0
  ELSE IF ~IsOpen(c.s) THEN EUBADF
  ELSE IF c.f \in OutF \cup {"fflush"} /\ s[c.s].md = RD THEN EUMODE
  ELSE IF c.f \in InF /\ s[c.s].md # RD THEN EUMODE
  ELSE IF c.f = "fclose" /\ c.s <= 3 THEN EUSTDIO
  ELSE 0

(***************************************************************************)
(* Error messages, as the documentation lists them                         *)
(***************************************************************************)
Messages == <<
  "Invalid file name", "No such file or directrory", "File exists", "File is opened", "File table overflow", "Bad file number",
  "No space left on device", "Bad path", "Bad mode", "Bad attribute", "Directory is not empty", "Invalid argument",
  "Process table overflow", "Bad EXE file", "Bad MAGIC number", "Too many open files", "No children", "No zombie children",
  "Not enough memory", "Try again", "Invalid system call number", "Zero division", "Privilege violation", "Illegal instruction",
  "Memory violation", "Stack overflow", "stdio: Bad open mode", "stdio: Bad file pointer", "fgetc: EOF was ignored",
  "fopen: Too many open files", "fclose: Standard i/o should not be closed", "fprintf: Invalid conversion",
  "malloc: Insufficient memory", "free: Bad address" >>
Message(k) == IF k < 0 /\ -k <= Len(Messages) THEN Messages[-k] ELSE "Undefined error"

(***************************************************************************)
(* Calls and their results                                                 *)
(***************************************************************************)
Call(e) ==
  /\ e.k = "call" /\ cur = None
  \* perror: the recorder gives the text it put together from the message named in the event
  /\ (e.f = "perror" => e.msg = Message(e.err))
  /\ cur' = e /\ seen' = <<>> /\ got' = <<>>
  /\ s' = IF e.f \in OutF /\ Misuse(e) = 0 /\ Touches(e) /\ ~s[e.s].err
          THEN [s EXCEPT ![e.s].pend = @ \o e.text] ELSE s
  /\ UNCHANGED <<errno, st>>

Short == \E i \in 1..Len(seen) : seen[i].no = 11 /\ seen[i].r < Len(seen[i].data)
SvcOf(k) == LET q == SelectSeq(seen, LAMBDA x : x.no = k) IN q

\* what may be buffered when a call is over
Buffered(x) == x.md = RD \/ x.err \/ /\ Len(x.pend) < Limit
                                     /\ (x.tty => ~Has(x.pend, 10))
                                     /\ (x.fd = -3 => x.pend = <<>>)

RetOut(e) ==
  /\ cur.f \in OutF
  /\ IF ~Touches(cur) THEN e.v = 0 /\ s' = s
     ELSE LET x == s[cur.s]
              y == [x EXCEPT !.err = (e.v # 0)] IN
          /\ e.v \in {0, 1}
          /\ (x.err => e.v = 1)
          /\ (e.v = 1 => x.err \/ Short)
          /\ Buffered(y)
          /\ s' = [s EXCEPT ![cur.s] = y]
RetPerror(e) == cur.f = "perror" /\ s[3].pend = <<>> /\ s' = s
RetFlush(e) ==
  /\ cur.f = "fflush"
  /\ LET x == s[cur.s]
         bad == x.err \/ x.pend # <<>> IN
     /\ (bad => x.err \/ Short)
     /\ e.v = B(bad)
     /\ s' = [s EXCEPT ![cur.s].err = bad]
RetClose(e) ==
  /\ cur.f = "fclose"
  /\ LET x == s[cur.s]
         c == SvcOf(9) IN
     IF c # <<>> /\ c[1].r >= 0 THEN e.v = 0 /\ s' = [s EXCEPT ![cur.s].open = FALSE]
     ELSE /\ e.v = 1
          /\ (c = <<>> => x.md # RD /\ (x.err \/ (Short /\ x.pend # <<>>)))
          /\ s' = [s EXCEPT ![cur.s].err = TRUE, ![cur.s].eof = TRUE, ![cur.s].ahead = <<>>]
RetSeek(e) ==
  /\ cur.f = "fseek"
  /\ LET c == SvcOf(12) IN Len(c) = 1 /\ c[1].r = 0
  /\ e.v = 0
  /\ s' = [s EXCEPT ![cur.s].err = @ \/ (s[cur.s].md # RD /\ s[cur.s].pend # <<>>)]
RetFeof(e) ==
  /\ cur.f = "feof"
  /\ LET x == s[cur.s] IN (x.ahead = <<>> => x.eof) /\ e.v = B(x.ahead = <<>>)
  /\ s' = s
RetGetc(e) ==
  /\ cur.f \in {"fgetc", "getchar"}
  /\ s[cur.s].ahead # <<>> /\ e.v = Head(s[cur.s].ahead)
  /\ s' = [s EXCEPT ![cur.s].ahead = Tail(@)]
RetGets(e) ==
  /\ cur.f = "fgets"
  /\ LET x == s[cur.s]
         room == cur.n - 1 - Len(got)
         nl == {i \in 1..Len(x.ahead) : x.ahead[i] = 10}
         k == IF Has(got, 10) THEN 0 ELSE IF nl = {} THEN Min(room, Len(x.ahead)) ELSE Min(room, CHOOSE i \in nl : \A j \in nl : i <= j)
         t == got \o SubSeq(x.ahead, 1, k)
         rest == Drop(x.ahead, k)
     IN /\ (t = <<>> \/ (t[Len(t)] # 10 /\ Len(t) < cur.n - 1) => rest = <<>> /\ x.eof)
        /\ e.null = (t = <<>>)
        /\ (t # <<>> => Len(e.buf) >= Len(t) + 1 /\ SubSeq(e.buf, 1, Len(t)) = t /\ e.buf[Len(t) + 1] = 0)
        /\ s' = [s EXCEPT ![cur.s].ahead = rest]
RetError(e) == cur.f = "ferror" /\ e.v = B(s[cur.s].err) /\ s' = s
\* the library may look at other paths (directories of the path) to find out what the path means
Calls == SelectSeq(seen, LAMBDA x : ~(x.no = 13 /\ x.path # cur.path))
RetSize(e) ==
  /\ cur.f = "fsize"
  /\ Len(Calls) = 1 /\ Calls[1].no = 13 /\ Calls[1].r >= 0
  /\ e.v = 0 /\ e.size = <<Calls[1].lenH, Calls[1].lenL>>
  /\ s' = s

ModeOf(m) == CASE m = <<114>> -> 0 [] m = <<119>> -> 1 [] m = <<97>> -> 2
NOpen == Cardinality({i \in 1..Len(s) : s[i].open})
\* the system calls of fopen, and the descriptor it gets (or an error)
OpenPlan ==
  LET md == ModeOf(cur.mode)
      isopen(x) == x.no = 8 /\ x.path = cur.path /\ x.mode = md
  IN IF Len(Calls) = 1 THEN isopen(Calls[1]) /\ (md # RD => Calls[1].r # ENOENT)
     ELSE IF Len(Calls) \in {2, 3}
     THEN /\ md # RD /\ isopen(Calls[1]) /\ Calls[1].r = ENOENT
          /\ Calls[2].no = 4 /\ Calls[2].path = cur.path
          /\ IF Len(Calls) = 2 THEN Calls[2].r < 0 ELSE Calls[2].r >= 0 /\ isopen(Calls[3])
     ELSE FALSE
OpenFd == IF Calls[Len(Calls)].no = 8 THEN Calls[Len(Calls)].r ELSE -1
RetOpen(e) ==
  /\ cur.f = "fopen" /\ OpenPlan
  /\ e.null = (OpenFd < 0)
  /\ IF OpenFd < 0 THEN s' = s
     ELSE NOpen < Slots /\ s' = Append(s, Strm(OpenFd, ModeOf(cur.mode), FALSE))

\* directory entries of 32 bytes: the first one that is a file or directory
Word(d, i) == d[i + 2] * 256 + d[i + 1]
Entry(d) == d[1] # 229 /\ (d[12] \div 8) % 2 = 0 /\ (d[12] \div 2) % 2 = 0
RetDir(e) ==
  /\ cur.f = "readDir"
  /\ seen # <<>>
  /\ \A i \in 1..Len(seen) : seen[i].no = 10 /\ seen[i].a = cur.fd /\ seen[i].n = 32
  /\ \A i \in 1..Len(seen) - 1 : seen[i].r > 0 /\ seen[i].data[1] # 0 /\ ~Entry(seen[i].data)
  /\ LET l == seen[Len(seen)]
         d == l.data IN
     IF l.r <= 0 THEN e.v = l.r
     ELSE IF d[1] = 0 THEN e.v = 0
     ELSE /\ Entry(d) /\ e.v = 1
          /\ e.name = <<IF d[1] = 5 THEN 229 ELSE d[1]>> \o SubSeq(d, 2, 11) \o <<0>>
          /\ e.attr = d[12] /\ e.clst = Word(d, 26) /\ e.lenH = Word(d, 30) /\ e.lenL = Word(d, 28)
  /\ s' = s

Ret(e) ==
  /\ e.k = "ret" /\ cur # None
  /\ Misuse(cur) = 0
  /\ ~e.stray
  /\ \/ (cur.f # "perror" /\ RetOut(e)) \/ RetPerror(e) \/ RetFlush(e) \/ RetClose(e) \/ RetSeek(e) \/ RetFeof(e) \/ RetGetc(e) \/ RetGets(e)
     \/ RetError(e) \/ RetSize(e) \/ RetOpen(e) \/ RetDir(e)
  /\ e.errno = errno
  /\ cur' = None /\ seen' = <<>> /\ got' = <<>> /\ UNCHANGED <<errno, st>>

\* the program ends inside a call
Exit(e) ==
  /\ e.k = "exit" /\ cur # None
  /\ IF Misuse(cur) # 0 THEN e.v = Misuse(cur) /\ seen = <<>>
     ELSE \/ /\ cur.f = "exit" /\ e.v = cur.v
             /\ \A i \in 1..Len(s) : s[i].open /\ s[i].md # RD => s[i].pend = <<>> \/ s[i].err
          \/ cur.f \in {"fgetc", "getchar"} /\ s[cur.s].ahead = <<>> /\ s[cur.s].eof /\ e.v = EUEOF
          \/ cur.f = "fseek" /\ LET c == SvcOf(12) IN Len(c) = 1 /\ c[1].r # 0 /\ e.v = c[1].r
          \/ cur.f = "fsize" /\ Len(Calls) = 1 /\ Calls[1].no = 13 /\ Calls[1].r < 0 /\ e.v = Calls[1].r
          \/ cur.f = "fopen" /\ OpenPlan /\ OpenFd >= 0 /\ NOpen >= Slots /\ e.v = EUNFILE
  /\ st' = "ended" /\ UNCHANGED <<s, cur, seen, got, errno>>

(***************************************************************************)
(* System calls                                                            *)
(***************************************************************************)
\* perror writes to stderr
Own(i) == IF cur.f = "exit" THEN s[i].open ELSE cur.s = i

Write(e) ==
  /\ e.no = 11
  /\ cur.f \in OutF \cup {"fflush", "fclose", "fseek", "exit"}
  /\ \E i \in 1..Len(s) :
       /\ s[i].open /\ Own(i) /\ s[i].fd = e.a /\ ~s[i].tty /\ s[i].md # RD /\ ~s[i].err
       /\ e.data # <<>> /\ Prefix(e.data, s[i].pend)
       /\ s' = [s EXCEPT ![i].pend = Drop(@, Max(e.r, 0)), ![i].err = (cur.f = "exit" /\ e.r < Len(e.data))]
  /\ UNCHANGED got
TtyWrite(e) ==
  /\ e.no = 15
  /\ cur.f \in OutF \cup {"fflush", "fseek", "exit"}
  /\ \E i \in {2, 3} :
       /\ Own(i)
       /\ e.data # <<>> /\ Prefix(e.data, s[i].pend)
       /\ s' = [s EXCEPT ![i].pend = Drop(@, Len(e.data))]
  /\ UNCHANGED got
Read(e) ==
  /\ e.no \in {10, 14}
  /\ cur.f \in InF \cup {"fseek"}
  /\ LET x == s[cur.s]
         all == got \o x.ahead IN
     /\ x.md = RD /\ x.tty = (e.no = 14) /\ (~x.tty => x.fd = e.a)
     /\ e.n > 0
     \* nothing is read ahead of what the call needs on the console, and nothing is lost
     /\ IF cur.f = "fgets" THEN /\ Len(all) <= cur.n - 1 /\ ~Has(SubSeq(all, 1, Len(all) - 1), 10)
                                /\ (x.tty => ~Has(all, 10) /\ Len(all) < cur.n - 1)
                                /\ got' = all
        ELSE x.ahead = <<>> /\ got' = got
     /\ (cur.f = "fseek" => SvcOf(12) # <<>>)
     /\ s' = [s EXCEPT ![cur.s].ahead = e.data, ![cur.s].eof = (e.r <= 0), ![cur.s].err = @ \/ (e.r < 0)]
Seek(e) ==
  /\ e.no = 12 /\ cur.f = "fseek"
  /\ LET x == s[cur.s] IN
     /\ e.a = x.fd /\ e.h = cur.h /\ e.l = cur.l
     /\ SvcOf(12) = <<>>
     /\ x.md = RD \/ x.pend = <<>> \/ x.err \/ Short
  /\ s' = [s EXCEPT ![cur.s].ahead = <<>>, ![cur.s].eof = FALSE]
  /\ UNCHANGED got
Close(e) ==
  /\ e.no = 9 /\ cur.f = "fclose" /\ e.a = s[cur.s].fd /\ SvcOf(9) = <<>>
  /\ s[cur.s].md = RD \/ s[cur.s].pend = <<>>
  /\ UNCHANGED <<s, got>>
\* judged when the call ends
Other(e) == /\ \/ e.no \in {4, 8} /\ cur.f = "fopen"
               \/ e.no = 13 /\ cur.f \in {"fsize", "fopen"}
               \/ e.no = 10 /\ cur.f = "readDir"
            /\ UNCHANGED <<s, got>>
Svc(e) ==
  /\ e.k = "svc" /\ cur # None /\ Misuse(cur) = 0
  /\ Write(e) \/ TtyWrite(e) \/ Read(e) \/ Seek(e) \/ Close(e) \/ Other(e)
  /\ seen' = Append(seen, e)
  /\ errno' = IF e.r < 0 THEN e.r ELSE errno
  /\ UNCHANGED <<cur, st>>

Init == /\ TInit /\ s = <<Strm(-1, 0, TRUE), Strm(-2, 1, TRUE), Strm(-3, 1, TRUE)>>
        /\ cur = None /\ seen = <<>> /\ got = <<>> /\ errno = 0 /\ st = "runs"
Next == More /\ st = "runs" /\ (LET e == Ev IN Call(e) \/ Svc(e) \/ Ret(e) \/ Exit(e)) /\ Take
Spec == Init /\ [][Next]_vars
=============================================================================
