------------------------------- MODULE Heap -------------------------------
(***************************************************************************)
(* The heap as a user sees it.  State: the set of live blocks, each with   *)
(* its address, its size in bytes and what it contains (a fingerprint).    *)
(* Where a new block goes is left open: anywhere in the heap, at an even   *)
(* address, away from every live block.                                    *)
(*                                                                         *)
(* Sizes are <<high, low>> words: a request of n objects of s bytes has a  *)
(* size of up to 32 bits and only fits if it is that small in fact.        *)
(*                                                                         *)
(* When a request ends the program with EUNOMEM there is no gap between    *)
(* live blocks that could take it even with the slack the implementation   *)
(* has for control data; likewise the stack check ends the program only    *)
(* when the heap has reached the stack.                                    *)
(***************************************************************************)
EXTENDS Trace, Limbs

VARIABLES live, st, top
vars == <<h, n, live, st, top>>

Slack == 32
Header == 4
EUNOMEM == -33
EUBADA == -34
EUSTK == -26
\* stack a call may need
Room == 100

Lo == H[h].lo
Hi == H[h].sp - Room

End(b) == b.a + b.n
Apart(b, c) == End(b) <= c.a \/ End(c) <= b.a
\* what the program sees in its blocks is what it put there
Same(e, L) == /\ ~e.stray
              /\ {<<x[1], x[2]>> : x \in {e.dig[i] : i \in 1..Len(e.dig)}} = {<<b.a, b.d>> : b \in L}

\* bytes asked for, as <<high, low>>
Size(e) == Mul16(e.c, e.s)
Small(e) == Size(e)[1] = 0

\* gaps between live blocks, as sizes
Gaps == LET Min(S) == CHOOSE x \in S : \A y \in S : x <= y
            starts == {End(b) : b \in live} \cup {Lo}
            stops == {b.a : b \in live} \cup {Hi}
        IN {Min({t \in stops : t >= x} \cup {Hi}) - x : x \in starts}
           
Alloc(e) ==
  /\ e.op = "alloc" /\ e.st = "ret"
  /\ Small(e)
  /\ LET b == [a |-> e.r, n |-> Size(e)[2], d |-> e.d] IN
     /\ e.r % 2 = 0 /\ e.r >= Lo + Header /\ End(b) <= e.sp
     /\ \A c \in live : c.a # e.r /\ Apart(b, c)
     /\ (e.zero => e.clear)
     /\ Same(e, live)
     /\ live' = live \cup {b}
  /\ UNCHANGED st

NoMem(e) ==
  /\ e.op = "alloc" /\ e.st = "exit" /\ e.r = EUNOMEM
  /\ (Small(e) => \A g \in Gaps : g < Size(e)[2] + Slack)
  /\ Same(e, live)
  /\ st' = "ended" /\ UNCHANGED live

Free(e) ==
  /\ e.op = "free" /\ e.st = "ret"
  /\ \E b \in live : b.a = e.a /\ live' = live \ {b} /\ Same(e, live \ {b})
  /\ UNCHANGED st

BadFree(e) ==
  /\ e.op = "free" /\ e.st = "exit" /\ e.r = EUBADA
  /\ \A b \in live : b.a # e.a
  /\ Same(e, live)
  /\ st' = "ended" /\ UNCHANGED live

\* the stack check of the library function itself: heap (which never gives memory back to the stack) and stack meet
NoStack(e) ==
  /\ e.st = "exit" /\ e.r = EUSTK
  /\ top + Slack + Room >= e.sp
  /\ Same(e, live)
  /\ st' = "ended" /\ UNCHANGED live

\* the stack check with the stack pointer at e.a: it must not let the stack into a live block, and may not complain
\* when there is room above everything that was ever allocated
Probe(e) ==
  /\ e.op = "probe"
  /\ IF \E b \in live : e.a < End(b) + 10 THEN e.st = "exit" /\ e.r = EUSTK
     ELSE (e.a > top + Slack + 10) => e.st = "ret"
  /\ Same(e, live)
  /\ st' = "ended" /\ UNCHANGED live

Init == TInit /\ live = {} /\ st = "runs" /\ top = Lo
Next == /\ More /\ st = "runs"
        /\ LET e == Ev IN (Alloc(e) \/ NoMem(e) \/ Free(e) \/ BadFree(e) \/ (e.op # "probe" /\ NoStack(e)) \/ Probe(e))
        /\ top' = LET ends == {End(b) : b \in live'} \cup {top} IN CHOOSE x \in ends : \A y \in ends : y <= x
        /\ Take
Spec == Init /\ [][Next]_vars

\* what the specification itself promises
Disjoint == \A b, c \in live : b = c \/ Apart(b, c)
=============================================================================
