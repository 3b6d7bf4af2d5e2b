------------------------------- MODULE Sys -------------------------------
(***************************************************************************)
(* Library functions that stand for system calls: what reaches the kernel  *)
(* and what comes back.  A history is a list of calls, each with the       *)
(* system calls made in it; errno is the error of the last failed one.     *)
(***************************************************************************)
EXTENDS Trace, Paths

VARIABLES errno, wd
vars == <<h, n, errno, wd>>

\* number, count of arguments, whether the first is a path
Table == [exec |-> <<0, 3, TRUE>>, wait |-> <<2, 1, FALSE>>, sleep |-> <<3, 1, FALSE>>, creat |-> <<4, 1, TRUE>>,
          remove |-> <<5, 1, TRUE>>, mkDir |-> <<6, 1, TRUE>>, rmDir |-> <<7, 1, TRUE>>, open |-> <<8, 2, TRUE>>,
          close |-> <<9, 1, FALSE>>, read |-> <<10, 3, FALSE>>, write |-> <<11, 3, FALSE>>, seek |-> <<12, 3, FALSE>>,
          stat |-> <<13, 2, TRUE>>, ttyRead |-> <<14, 2, FALSE>>, ttyWrite |-> <<15, 2, FALSE>>, ttyCtl |-> <<16, 2, FALSE>>]
BUF == 80
STAT == 13
D == H[h].dirs

\* the functions with an underscore take the path as it is
Entry(e) == IF e.raw THEN [Table[e.f] EXCEPT ![3] = FALSE] ELSE Table[e.f]
Own(e) == LET t == Entry(e)
              last == e.svc[Len(e.svc)] IN
  /\ e.svc # <<>> /\ last.no = t[1]
  /\ \A i \in 1..t[2] : (IF t[3] /\ i = 1 THEN last.path = Norm(wd, e.path) ELSE last.a[i] = e.a[i])
  /\ e.v = last.r
  /\ e.errno = (IF last.r < 0 THEN last.r ELSE errno)
\* looking at directories on the way
Lookups(l) == \A i \in 1..Len(l) : l[i].no = STAT

Step(e) ==
  /\ e.st = "ret" /\ ~e.stray
  /\ LET t == Entry(e) IN
     IF ~t[3] THEN Len(e.svc) = 1 /\ Own(e)
     ELSE \/ /\ DirThere(D, wd, e.path) /\ Len(Norm(wd, e.path)) < BUF
             /\ e.svc # <<>> /\ Lookups(SubSeq(e.svc, 1, Len(e.svc) - 1)) /\ Own(e)
          \/ /\ ~DirThere(D, wd, e.path) \/ RawLen(wd, e.path) >= BUF - 1
             /\ Lookups(e.svc)
             /\ e.v < 0 /\ e.errno = e.v
  /\ errno' = e.errno /\ wd' = wd

\* _exit does not come back
Exit(e) == /\ e.f = "_exit" /\ e.st = "exit" /\ e.v = e.a[1] /\ UNCHANGED <<errno, wd>>

Init == TInit /\ errno = 0 /\ wd = H[h].wd
Next == More /\ (LET e == Ev IN IF e.f = "_exit" THEN Exit(e) ELSE Step(e)) /\ Take
Spec == Init /\ [][Next]_vars
=============================================================================
