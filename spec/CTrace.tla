------------------------------- MODULE CTrace -------------------------------
(***************************************************************************)
(* Validation of traces recorded from the C translation of a program: the  *)
(* events the compiled C program produced (P.trace, ended by the exit      *)
(* event <<0, value>> when main returned) must be those of the source      *)
(* machine.  With run-time checks (P.rtc = 1) a program that reaches an    *)
(* illegal access must stop there, with a message for that access:         *)
(* P.fault = <<line, kind, index>> as recorded (<<>>: no message; <<-1>>:  *)
(* another death).                                                         *)
(***************************************************************************)
EXTENDS Cmm

allvars == <<pid, ph, svars>>
Init == SInit

Full == Append(ev, <<0, Top(V)>>)
Diff(t, e) == IF t = e THEN 0 ELSE
              CHOOSE i \in 1..(Len(t) + 1) :
                 /\ i > Len(t) \/ i > Len(e) \/ t[i] # e[i]
                 /\ \A j \in 1..(i - 1) : j <= Len(e) /\ t[j] = e[j]
Stop(s, i) == /\ st' = s /\ info' = i
              /\ UNCHANGED <<pid, ph, C, V, F, G, H, ev, nin, steps>>

Compare(e) == LET d == Diff(P.trace, e) IN
  <<"event", d, IF d <= Len(P.trace) THEN P.trace[d] ELSE <<>>,
    IF d <= Len(e) THEN e[d] ELSE <<>>, P.fault>>

Finish ==
  /\ SrcDone
  /\ LET full == IF P.vmain = 1 THEN Append(ev, <<0, 0>>) ELSE Full IN
     IF P.fault # <<>> THEN Stop("bad", <<"stopped", P.fault, Len(P.trace), Len(full)>>)
     ELSE IF P.trace # full THEN Stop("bad", Compare(full))
     ELSE Stop("ok", <<Len(full)>>)

\* the run of the source program ended at an illegal access
Faulted ==
  /\ ph = "src" /\ st = "fault"
  /\ ph' = "end"
  /\ IF P.rtc = 0 THEN st' = "unspec" /\ info' = <<"fault", info>>
     ELSE IF P.trace # ev THEN st' = "bad" /\ info' = Compare(ev)
     ELSE IF P.fault # <<N(info[1]).ln, info[2], info[3]>>
     THEN st' = "bad" /\ info' = <<"message", P.fault, <<N(info[1]).ln, info[2], info[3]>>>>
     ELSE st' = "ok" /\ info' = <<"fault", Len(ev)>>
  /\ UNCHANGED <<pid, C, V, F, G, H, ev, nin, steps>>

Next == SrcNext \/ Finish \/ Faulted
Report == (st # "run" /\ ~(st = "fault" /\ ph = "src")) =>
             PrintT(<<"V", P.id, st, info, steps, Len(ev)>>)
NoViolation == st # "bad"
=============================================================================
