------------------------------ MODULE Instances ------------------------------
(* Several instances (BCDice values), each with a game system, a die source and
   a script of its own, used at the same time.  An instance moves by itself; the
   steps of different instances interleave in any order, down to single draws. *)
EXTENDS TraceExec

VARIABLES scripts,    \* of each instance: a sequence of [op: "run" | "game", t: text or name]
          at,         \* where each instance is in its script
          D,          \* the draws of the command it is at
          game,       \* its game system
          replies     \* what it has replied

ivars == <<scripts, at, D, game, replies>>

I == 1 .. Len(scripts)

\* the die that the source of instance i delivers as number j for its k-th entry
Die(i, k, j, q) == [q |-> q, ok |-> TRUE, s |-> q, v |-> N(1 + (((3 * i) + (5 * k) + (2 * j)) % ToInt(q)))]

IInit == /\ at = [i \in I |-> 1]
         /\ D = [i \in I |-> <<>>]
         /\ game = [i \in I |-> "DiceBot"]
         /\ replies = [i \in I |-> <<>>]

Entry(i) == scripts[i][at[i]]
Busy(i) == D[i] # <<>>        \* in the middle of a command
Ended_(i) == at[i] > Len(scripts[i])

Wants(t, ds) == LET p == ParseInput(t)
                    r == Run(p.v, ds)
                IN IF p.ok /\ r.s = "need" THEN [need |-> TRUE, q |-> r.need] ELSE [need |-> FALSE, q |-> NZero]

\* the command of i goes on with the draws ds, until it waits for a die or is through
GoOn(i, ds) ==
  LET w == Wants(Entry(i).t, ds)
  IN IF w.need
     THEN /\ D' = [D EXCEPT ![i] = Append(ds, Die(i, at[i], Len(ds) + 1, w.q))]
          /\ UNCHANGED <<at, replies>>
     ELSE /\ D' = [D EXCEPT ![i] = <<>>]
          /\ at' = [at EXCEPT ![i] = @ + 1]
          /\ replies' = [replies EXCEPT ![i] = Append(@, Expected(Entry(i).t, game[i], ds))]

\* (D[i] ends with the die the command waits for)
Begin(i) == Entry(i).op = "run" /\ ~Busy(i) /\ GoOn(i, <<>>) /\ UNCHANGED game
Deliver(i) == Busy(i) /\ GoOn(i, D[i]) /\ UNCHANGED game
Switch(i) == /\ Entry(i).op = "game"
             /\ game' = [game EXCEPT ![i] = Entry(i).t]
             /\ at' = [at EXCEPT ![i] = @ + 1]
             /\ UNCHANGED <<D, replies>>

Move(i) == ~Ended_(i) /\ (Begin(i) \/ Deliver(i) \/ Switch(i)) /\ scripts' = scripts

INext == \E i \in I : Move(i)

---------------------------------------------------------------------------
(* What an instance replies is what it replies when it is used alone. *)

RECURSIVE Dealt(_, _, _, _)
Dealt(i, k, t, ds) == LET w == Wants(t, ds)
                      IN IF w.need THEN Dealt(i, k, t, Append(ds, Die(i, k, Len(ds) + 1, w.q))) ELSE ds

RECURSIVE Alone(_, _, _)
Alone(i, k, g) ==
  IF k > Len(scripts[i]) THEN <<>>
  ELSE LET e == scripts[i][k]
       IN IF e.op = "game" THEN Alone(i, k + 1, e.t)
          ELSE <<Expected(e.t, g, Dealt(i, k, e.t, <<>>))>> \o Alone(i, k + 1, g)

Independent == (\A i \in I : Ended_(i)) => \A i \in I : replies[i] = Alone(i, 1, "DiceBot")

\* no step touches two instances, and nothing replied is taken back
OneAtATime == [][\E i \in I : \A j \in I \ {i} : at'[j] = at[j] /\ D'[j] = D[j] /\ game'[j] = game[j] /\ replies'[j] = replies[j]]_ivars
Kept == [][\A i \in I : SubSeq(replies'[i], 1, Len(replies[i])) = replies[i]]_ivars
=============================================================================
