---------------------------- MODULE TraceRegistry ----------------------------
(* Validates recorded uses of the registry, of sessions and of the API. *)
EXTENDS Registry, Json, IOUtils

VARIABLES tr, l, reg, ver, st
vars == <<tr, l, reg, ver, st>>

Traces == JsonDeserialize(IOEnv.TRACES)
Say(x) == PrintT("MISMATCH " \o ToJson([tr |-> tr, l |-> l, expected |-> x]))
Ev == Traces[tr][l]
SetOf(q) == {q[i] : i \in 1 .. Len(q)}

Init == tr \in 1 .. Len(Traces) /\ l = 1 /\ reg = {} /\ ver = <<"", "">> /\ st = Fresh

StepBegin == Ev.op = "begin" /\ reg' = SetOf(Ev.games) /\ ver' = Ev.ver /\ st' = Fresh

\* an answer as it was recorded
Given(o) ==
  CASE o.op \in {"http", "object", "array", "failure"} -> [code |-> o.code2, json |-> o.json, body |-> SetOf(o.leaves)]
    [] o.op = "errors" -> [has |-> o.has, all |-> SetOf(o.all)]
    [] OTHER -> o.ans

Op(o) == IF o.op = "object" THEN [o EXCEPT !.body = SetOf(o.body)] ELSE o

StepOp ==
  /\ Ev.op \notin {"begin", "nowhere"}
  /\ LET r == Apply(reg, ver, st, Op(Ev))
     IN /\ IF Given(Ev) = r.ans THEN TRUE ELSE Say(r.ans) /\ FALSE
        /\ st' = r.st
  /\ UNCHANGED <<reg, ver>>

\* a request for something else: no success
StepNowhere ==
  /\ Ev.op = "nowhere"
  /\ IF Ev.code2 = 404 /\ "ok=true" \notin SetOf(Ev.leaves) THEN TRUE ELSE Say([code |-> 404]) /\ FALSE
  /\ UNCHANGED <<reg, ver, st>>

Next == /\ l <= Len(Traces[tr]) /\ l' = l + 1 /\ tr' = tr
        /\ StepBegin \/ StepOp \/ StepNowhere
=============================================================================
