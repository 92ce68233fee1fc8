------------------------------- MODULE TraceRepl -------------------------------
(* Validates recorded sessions of the shell.  The output of each line is told
   apart by marker lines; a second run without markers ("whole") has to put out
   the same, as far as it does not depend on random dice.                      *)
EXTENDS Repl, Json, IOUtils

VARIABLES tr, l, st, all, fixed
vars == <<tr, l, st, all, fixed>>

Traces == JsonDeserialize(IOEnv.TRACES)
Say(x) == PrintT("MISMATCH " \o ToJson([tr |-> tr, l |-> l, expected |-> x]))
Ev == Traces[tr][l]

Init == tr \in 1 .. Len(Traces) /\ l = 1 /\ st = Begin /\ all = "" /\ fixed = TRUE

\* the greeting
StepBegin ==
  /\ Ev.e = "begin"
  /\ st' = st /\ all' = Ev.out /\ fixed' = fixed

StepLine ==
  /\ Ev.e = "line"
  /\ LET r == IF st.ended THEN Step(st, TextAns("")) ELSE Submit(st, Ev.line)
     IN /\ IF Answers(r.a, Ev.out) THEN TRUE ELSE Say([state |-> st, answer |-> r.a]) /\ FALSE
        /\ st' = r.st
        /\ all' = all \o Ev.out
        /\ fixed' = (fixed /\ Settled(r.a))

\* the process has ended, by itself and without a complaint
StepEnd ==
  /\ Ev.e = "end"
  /\ IF Ev.code = "0" /\ Ev.rest = "" THEN TRUE ELSE Say([code |-> "0", rest |-> ""]) /\ FALSE
  /\ UNCHANGED <<st, all, fixed>>

StepWhole ==
  /\ Ev.e = "whole"
  /\ IF Ev.code = "0" /\ (fixed => Ev.out = all) THEN TRUE ELSE Say([code |-> "0", out |-> all]) /\ FALSE
  /\ UNCHANGED <<st, all, fixed>>

\* ten dice with a million million faces, rolled here and there: never the same
StepDistinct ==
  /\ Ev.e = "distinct"
  /\ IF \A i, j \in 1 .. Len(Ev.outs) : i # j => Ev.outs[i] # Ev.outs[j] THEN TRUE
     ELSE Say([outs |-> "all different"]) /\ FALSE
  /\ UNCHANGED <<st, all, fixed>>

Next == /\ l <= Len(Traces[tr]) /\ l' = l + 1 /\ tr' = tr
        /\ StepBegin \/ StepLine \/ StepEnd \/ StepWhole \/ StepDistinct
=============================================================================
