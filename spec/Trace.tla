-------------------------------- MODULE Trace --------------------------------
(* Validates recorded traces.  Every trace is followed event by event; an event
   that contradicts the property stops its trace.                             *)
EXTENDS TraceExec, Json, IOUtils

VARIABLES tr, l
vars == <<tr, l>>

Traces == JsonDeserialize(IOEnv.TRACES)
Prop == IOEnv.PROP

Say(x) == PrintT("MISMATCH " \o ToJson([tr |-> tr, l |-> l, expected |-> x]))

Init == tr \in 1 .. Len(Traces) /\ l = 1

Ev == Traces[tr][l]

StepExec ==
  /\ Ev.e = "exec"
  /\ LET x == Expected(Ev.t, Ev.g, Ev.D)
     IN IF Says(Prop, Ev, x) THEN TRUE ELSE Say(x) /\ FALSE

StepOwn ==
  /\ Ev.e = "own"
  /\ LET x == ExpectedOwn(Ev.t, Ev.g, Ev.D, Ev.own)
     IN IF IF Prop = "P12" THEN Says12(Ev, x) ELSE ExecAgrees(Ev, x) /\ (Both(Ev, x) => Ev.parts = x.parts) THEN TRUE ELSE Say(x) /\ FALSE

StepParse ==
  /\ Ev.e = "parse"
  /\ LET x == ExpectedParse(Ev.t)
     IN IF ParseAgrees(Ev, x) THEN TRUE ELSE Say(x) /\ FALSE

StepTyped ==
  /\ Ev.e = "typed"
  /\ LET x == ExpectedTyped(Ev.t)
     IN IF TypedAgrees(Ev, x) THEN TRUE ELSE Say(x) /\ FALSE

StepDeep ==
  /\ Ev.e = "deep"
  /\ IF DeepAgrees(Ev) THEN TRUE ELSE Say([out |-> "as for shallow ones"]) /\ FALSE

\* Two executions of the same history that are to be alike: with texts of the
\* same meaning in the same game (an unmarked one and a secret one, one with and
\* one without trailing text, or the same text at another time or place) and the
\* same dice on offer.
Key(ev) == ParseInput(ev.t)
Alike(a, b) == \/ a.s # b.s \/ a.g # b.g \/ Key(a) # Key(b)
               \/ /\ a.out = b.out /\ a.nores = b.nores /\ a.D = b.D
                  /\ a.out = "reply" =>
                       a.parts = b.parts /\ a.msg = b.msg /\ a.game = b.game
                       /\ a.verdict = b.verdict /\ a.dice = b.dice

StepRepeat ==
  /\ Ev.e = "again"
  /\ LET bad == {j \in 1 .. l - 1 : Traces[tr][j].e = "again" /\ ~Alike(Traces[tr][j], Ev)}
     IN /\ IF bad = {} THEN TRUE ELSE Say([out |-> "as event", at |-> bad]) /\ FALSE
        /\ Ev.out = "reply" => IF Ev.secret = IsSecretText(Ev.t) THEN TRUE
                               ELSE Say([out |-> "secret", secret |-> IsSecretText(Ev.t)]) /\ FALSE

\* A reply looked at again later: Ev.at is the place where it was returned
StepStill ==
  /\ Ev.e = "still"
  /\ LET o == Traces[tr][Ev.at]
     IN IF /\ o.out = Ev.out
           /\ o.out = "reply" => /\ o.parts = Ev.parts /\ o.msg = Ev.msg /\ o.game = Ev.game
                                 /\ o.verdict = Ev.verdict /\ o.dice = Ev.dice /\ o.secret = Ev.secret
        THEN TRUE ELSE Say([out |-> "unchanged since", at |-> Ev.at]) /\ FALSE

Next ==
  /\ l <= Len(Traces[tr])
  /\ StepExec \/ StepOwn \/ StepParse \/ StepTyped \/ StepDeep \/ StepRepeat \/ StepStill
  /\ l' = l + 1
  /\ tr' = tr

Spec == Init /\ [][Next]_vars
=============================================================================
