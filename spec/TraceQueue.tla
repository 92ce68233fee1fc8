------------------------------ MODULE TraceQueue ------------------------------
(* Validates recorded histories of scripted die sources.  Dice are strings here. *)
EXTENDS Queue, TLC, Json, IOUtils

VARIABLES tr, l, qs, ls
vars == <<tr, l, qs, ls>>

Traces == JsonDeserialize(IOEnv.TRACES)
Say(x) == PrintT("MISMATCH " \o ToJson([tr |-> tr, l |-> l, expected |-> x]))
Ev == Traces[tr][l]

Init == tr \in 1 .. Len(Traces) /\ l = 1 /\ qs = <<>> /\ ls = <<>>

StepBegin == Ev.op = "begin" /\ qs' = [i \in 1 .. Ev.n |-> <<>>] /\ ls' = Ev.ls

\* all that the sources say of themselves; and the lists
Look(q, s) == /\ Ev.qs = q /\ Ev.ls = s
              /\ Ev.rem = [i \in 1 .. Len(q) |-> Len(q[i])]
              /\ Ev.empty = [i \in 1 .. Len(q) |-> q[i] = <<>>]
              /\ Ev.can
StepLook == Ev.op = "look" /\ UNCHANGED <<qs, ls>>
            /\ IF Look(qs, ls) THEN TRUE ELSE Say([qs |-> qs, ls |-> ls]) /\ FALSE

StepOp ==
  /\ Ev.op \notin {"begin", "look"}
  /\ LET r == Apply(qs, ls, Ev)
     IN /\ IF Ev.ans = r.ans THEN TRUE ELSE Say([ans |-> r.ans, qs |-> qs]) /\ FALSE
        /\ qs' = r.qs /\ ls' = r.ls

Next == /\ l <= Len(Traces[tr]) /\ l' = l + 1 /\ tr' = tr
        /\ StepBegin \/ StepLook \/ StepOp
=============================================================================
