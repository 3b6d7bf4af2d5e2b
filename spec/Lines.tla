------------------------------ MODULE Lines ------------------------------
(***************************************************************************)
(* Where a translator is in the source: the file and the line, while the   *)
(* text of a program goes by piece by piece.                               *)
(*                                                                         *)
(* The pieces are the tokens of a fixed valid program and, between them,   *)
(* blanks, line ends, comments (which may hold line ends and things that   *)
(* look like line markers) and line markers  # N "file".  A history ends   *)
(* with the last token of the program, with an erroneous piece, or with    *)
(* the text ending too early.                                              *)
(*                                                                         *)
(* State: p tokens have gone by; the next character is on line ln of file  *)
(* f; col0: it begins a line of the text; h: the history of pieces;        *)
(* n: separators since the last token; st and err: the outcome.            *)
(* ref collects the positions of the checked access, inc what the C      *)
(* translator includes and whether it prints the declarations.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

VARIABLES p, f, ln, col0, h, n, st, err, ref, inc, lim
vars == <<p, f, ln, col0, h, n, st, err, ref, inc, lim>>

\* the token kinds of the program (lib: checks/c15.py has their text): "D" a token that begins a declaration,
\* "S" one that begins a statement, "X" one that begins an operand, "A" the closing bracket of a checked access,
\* "o" any other
Prog == <<"D", "o", "o", "X", "o",                                      \* int a = 1 ;
          "D", "o", "o", "o", "o",                                      \* int [ ] b ;
          "D", "o", "o", "o", "o", "o", "o", "o",                       \* struct S { int x ; } ;
          "D", "o", "o", "o", "o", "o", "o", "o", "o",                  \* int f ( int u , boolean v )
          "o", "S", "o", "o", "X", "o",                                 \* { int x = u ;
          "S", "o", "X", "o",                                           \* while ( v )
          "o", "S", "o", "X", "o", "X", "A", "o", "X", "o",             \* { x = b [ x ] + 1 ;
          "o", "S", "X", "o", "o">>                                     \* } return x ; }
Depth == atoi(IOEnv.DEPTH)              \* separators between two tokens
Exact == IOEnv.EXACT = "yes"            \* separators only directly before the end of the history

Files == {"a", "b", "sys"}              \* "sys" is a system header
Nums == {1, 9, 70000}
MFlag == {0, 1, 2, 3}                   \* ways to write a marker

\* lines a separator goes on by
Seps == {"sp", "tab", "nl", "crnl", "com", "comnl", "comsharp", "eol", "eolsharp"}
Adv(s) == CASE s \in {"sp", "tab", "com"} -> 0
            [] s \in {"nl", "crnl", "eol", "eolsharp", "comnl"} -> 1
            [] s = "comsharp" -> 2

Init == /\ p = 0 /\ f = "arg" /\ ln = 1 /\ col0 = TRUE /\ h = <<>> /\ n = 0 /\ st = "go" /\ err = <<>>
        /\ ref = <<>> /\ inc = <<>>
        /\ lim \in {x \in 0..Len(Prog) : x % atoi(IOEnv.PARTS) = atoi(IOEnv.PART)}

More(x) == h' = Append(h, x)
Sep(s) ==
  /\ ln' = ln + Adv(s)
  /\ col0' = (s \in {"nl", "crnl", "eol", "eolsharp"})
  /\ n' = n + 1 /\ More(<<"sep", s>>) /\ UNCHANGED <<p, f, st, err, ref, inc>>
\* a marker is a line of its own: what follows is line k of file g
Marker(k, g, w) ==
  /\ col0
  /\ ln' = k /\ f' = g
  /\ n' = n + 1 /\ More(<<"mark", k, g, w>>)
  /\ inc' = IF (IF p = Len(Prog) THEN TRUE ELSE Prog[p + 1] = "D") THEN Append(inc, <<p, k, g>>) ELSE inc
  /\ UNCHANGED <<p, col0, st, err, ref>>
Token ==
  /\ p < Len(Prog)
  /\ p' = p + 1 /\ col0' = FALSE /\ n' = 0 /\ More(<<"tok", p + 1>>)
  /\ ref' = IF Prog[p + 1] = "A" THEN <<<<f, ln>>>>
            ELSE IF p > 0 /\ Prog[p] = "A" THEN Append(ref, <<f, ln>>) ELSE ref
  /\ UNCHANGED <<f, ln, st, err, inc>>
Finish == p = Len(Prog) /\ st' = "acc" /\ UNCHANGED <<p, f, ln, col0, h, n, err, ref, inc>>

\* erroneous pieces and where they may be.  All of a piece is on one line.
Lexical == {"badchar", "badesc", "openstr", "openchr", "bighex", "nohex", "longname", "longstr"}
MarkErr == {"marknonum", "marknofile", "markopen", "marklong"}
Syntax == {"at", "dotdot"}
Kinds == Lexical \cup MarkErr \cup Syntax \cup {"undef", "redecl", "noproto", "badtype", "breakout", "noret", "eof", "opencom"}
Here(k) == CASE k \in Lexical \cup Syntax -> p < Len(Prog)
             [] k \in MarkErr -> col0
             [] k = "undef" -> p < Len(Prog) /\ Prog[p + 1] = "X"
             [] k \in {"redecl", "noproto"} -> p \in 10..Len(Prog) /\ (IF p = Len(Prog) THEN TRUE ELSE Prog[p + 1] = "D")
             [] k = "badtype" -> p > 26 /\ p < Len(Prog) /\ Prog[p + 1] = "S"
             [] k \in {"breakout", "noret"} -> p = Len(Prog) - 4
             [] k = "eof" -> p \in 1..Len(Prog) - 1 /\ Prog[p + 1] # "D" /\ ~col0
             [] k = "opencom" -> h # <<>> /\ h[Len(h)][1] = "tok"
Error(k) ==
  /\ Here(k)
  /\ st' = "rej" /\ err' = <<k, f, ln>> /\ h' = Append(h, <<"err", k>>)
  /\ UNCHANGED <<p, f, ln, col0, n, ref, inc>>

Go == st = "go"
Next == /\ Go
        /\ UNCHANGED lim
        /\ \/ /\ n < Depth
              /\ (Exact => p = lim)
              /\ \/ \E s \in Seps : Sep(s)
                 \/ \E k \in Nums, g \in Files, w \in MFlag : w = (k + p + n) % 4 /\ Marker(k, g, w)
           \/ Token
           \/ (IF Exact THEN p = lim ELSE p >= lim) /\ \E k \in Kinds : Error(k)
           \/ Finish
Spec == Init /\ [][Next]_vars

\* the line never goes back but at a marker; a marker only begins a line; the outcome is at the end
Sane == /\ ln >= 1
        /\ st # "go" => (st = "rej") = (err # <<>>)
        /\ st = "rej" => h[Len(h)][1] = "err"
        /\ Len(ref) <= 2
OnlyMarkersGoBack == [][ln' < ln \/ f' # f => h'[Len(h')][1] = "mark"]_vars
OnlyAtLineStart == [][(Len(h') > Len(h) /\ h'[Len(h')][1] = "mark") => col0]_vars
Report == st = "go" \/ PrintT(ToJson([h |-> h, e |-> err, r |-> ref, i |-> inc]))
=============================================================================
