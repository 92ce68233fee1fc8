----------------------------- MODULE TraceObjects -----------------------------
(* Validates recorded uses of values, dice and replies under construction. *)
EXTENDS Objects, Json, IOUtils

VARIABLES tr, l, parts
vars == <<tr, l, parts>>

Traces == JsonDeserialize(IOEnv.TRACES)
Say(x) == PrintT("MISMATCH " \o ToJson([tr |-> tr, l |-> l, expected |-> x]))
Ev == Traces[tr][l]

Init == tr \in 1 .. Len(Traces) /\ l = 1 /\ parts = <<>>

\* a value, asked some questions in turn
StepObject ==
  /\ Ev.op = "object" /\ parts' = parts
  /\ LET bad == {i \in 1 .. Len(Ev.qs) : LET a == Answer(Ev.o, Ev.qs[i]) IN a # "any" /\ a # Ev.qs[i].ans}
     IN IF bad = {} THEN TRUE ELSE Say([i \in bad |-> Answer(Ev.o, Ev.qs[i])]) /\ FALSE

StepDie ==
  /\ Ev.op = "die" /\ parts' = parts
  /\ IF Ev.string = DieAnswer(Ev.d, "string") /\ Ev.sexp = DieAnswer(Ev.d, "sexp") THEN TRUE
     ELSE Say(<<DieAnswer(Ev.d, "string"), DieAnswer(Ev.d, "sexp")>>) /\ FALSE

StepDice ==
  /\ Ev.op = "dice" /\ parts' = parts
  /\ IF Ev.plain = DiceText(Ev.ds, ",") /\ Ev.spaced = DiceText(Ev.ds, ", ") THEN TRUE
     ELSE Say(<<DiceText(Ev.ds, ","), DiceText(Ev.ds, ", ")>>) /\ FALSE

StepVerdict ==
  /\ Ev.op = "verdict" /\ parts' = parts
  /\ IF Ev.ans = VerdictText(Ev.n) THEN TRUE ELSE Say(VerdictText(Ev.n)) /\ FALSE

\* several replies under construction; parts[w] is what the w-th has got so far
StepReply == Ev.op = "reply" /\ parts' = [i \in 1 .. Ev.n |-> <<>>]
StepPart == Ev.op = "part" /\ parts' = [parts EXCEPT ![Ev.w] = Append(@, Ev.s)]
StepMessage ==
  /\ Ev.op = "message" /\ parts' = parts
  /\ IF Ev.msg = MessageText(Ev.game, parts[Ev.w]) /\ Ev.joined = Join(parts[Ev.w], " ＞ ") /\ Ev.parts = parts[Ev.w] THEN TRUE
     ELSE Say(MessageText(Ev.game, parts[Ev.w])) /\ FALSE

Next == /\ l <= Len(Traces[tr]) /\ l' = l + 1 /\ tr' = tr
        /\ StepObject \/ StepDie \/ StepDice \/ StepVerdict \/ StepReply \/ StepPart \/ StepMessage
=============================================================================
