----------------------------- MODULE TraceTestData -----------------------------
(* Validates recorded readings of test data. *)
EXTENDS TestData, Json, IOUtils

VARIABLES tr, l
vars == <<tr, l>>

Traces == JsonDeserialize(IOEnv.TRACES)
Say(x) == PrintT("MISMATCH " \o ToJson([tr |-> tr, l |-> l, expected |-> x]))
Ev == Traces[tr][l]

Init == tr \in 1 .. Len(Traces) /\ l = 1

Agrees(x) == \/ x.out = "any" /\ Ev.out \in {"ok", "error"}
             \/ x.out = "error" /\ Ev.out = "error"
             \/ /\ x.out = "ok" /\ Ev.out = "ok"
                /\ IF Ev.e = "dice" THEN Ev.dice = x.dice ELSE Ev.cases = x.cases

Expected ==
  CASE Ev.e = "dice"  -> ReadDice(Ev.t)
    [] Ev.e = "case"  -> ReadCase(Ev.t, Ev.game, Ev.index)
    [] Ev.e = "file"  -> ReadFile(Ev.t, Ev.game)
    [] Ev.e = "files" -> ReadFiles(Ev.fs, Ev.there, Ev.game)

Read == Ev.e # "format" /\ IF Agrees(Expected) THEN TRUE ELSE Say(Expected) /\ FALSE

\* dice written down
Format == /\ Ev.e = "format"
          /\ IF Ev.spaced = WriteDice(Ev.dice, ", ") /\ Ev.plain = WriteDice(Ev.dice, ",") THEN TRUE
             ELSE Say([spaced |-> WriteDice(Ev.dice, ", "), plain |-> WriteDice(Ev.dice, ",")]) /\ FALSE

Next == l <= Len(Traces[tr]) /\ l' = l + 1 /\ tr' = tr /\ (Read \/ Format)
=============================================================================
