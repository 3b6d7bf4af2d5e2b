-------------------------------- MODULE VM --------------------------------
(***************************************************************************)
(* The virtual stack machine of vm-c-- / ic-c--: one operand stack per     *)
(* activation, an argument area, local variables and parameters, global    *)
(* names, and labelled data objects whose elements are addressed by        *)
(* (reference, index) pairs.                                               *)
(*                                                                         *)
(* A program image is im = [code, objs, globs, entry]: code is one record  *)
(* [o, n, x] per instruction (jump targets are instruction numbers, calls  *)
(* of functions carry the entry point, calls of external functions minus   *)
(* the function number); objs is the sequence of labelled objects (a       *)
(* sequence of words or of bytes each); globals are objects of one word.   *)
(*                                                                         *)
(* The machine is stuck on: an empty operand stack, operands left behind   *)
(* at RET, arguments missing or left over, wild references, word access to *)
(* bytes and vice versa, values outside 0..255 stored in bytes, a          *)
(* non-boolean in JT / JF / NOT.                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

VARIABLES mpc,   \* next instruction
          S,     \* operand stack of the current activation, top first (cons)
          A,     \* argument area, last argument pushed first (cons)
          L,     \* [l |-> locals, p |-> parameters, a |-> height of A on entry]
          M,     \* data objects
          rr,    \* return value register
          fs     \* suspended activations (cons)
vvars == <<mpc, S, A, L, M, rr, fs>>

VStuck == -2147483645
VU == -2147483644           \* nothing written yet

VRef == 1073741824          \* reference to object i = VRef + i
VObj(r) == r - VRef
VOk(r, i, w) == /\ r > VRef /\ VObj(r) \in 1..Len(M)
                /\ M[VObj(r)].w = w
                /\ i >= 0 /\ i < Len(M[VObj(r)].e)

RECURSIVE VHeight(_)
VHeight(s) == IF s = <<>> THEN 0 ELSE 1 + VHeight(s[2])
RECURSIVE VTake(_, _)
VTake(s, n) == IF n = 0 THEN <<>> ELSE <<s[1]>> \o VTake(s[2], n - 1)
RECURSIVE VDrop(_, _)
VDrop(s, n) == IF n = 0 THEN s ELSE VDrop(s[2], n - 1)
VHas(s, n) == IF n = 0 THEN TRUE ELSE IF s = <<>> THEN FALSE
              ELSE IF n = 1 THEN TRUE ELSE IF s[2] = <<>> THEN FALSE
              ELSE IF n = 2 THEN TRUE ELSE s[2][2] # <<>>
=============================================================================
