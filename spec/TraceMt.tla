------------------------------- MODULE TraceMt -------------------------------
(* Validates recorded histories of random die sources.  Every source follows its
   own seed only; the histories interleave them.                               *)
EXTENDS Mt, Json, IOUtils

VARIABLES tr, l, src    \* src[id] = [seed, gen]
vars == <<tr, l, src>>

Traces == JsonDeserialize(IOEnv.TRACES)
Say(x) == PrintT("MISMATCH " \o ToJson([tr |-> tr, l |-> l, expected |-> x]))
Ev == Traces[tr][l]

Init == tr \in 1 .. Len(Traces) /\ l = 1 /\ src = <<>>

\* a source is built; the ids count up
StepNew ==
  /\ Ev.e = "new"
  /\ IF Ev.reported = Ev.seed THEN TRUE ELSE Say([reported |-> Ev.seed]) /\ FALSE
  /\ src' = Append(src, [seed |-> Ev.seed, gen |-> Seeded(Ev.seed)])

\* it is asked which seed it has
StepSeed ==
  /\ Ev.e = "seed"
  /\ IF Ev.reported = src[Ev.id].seed THEN TRUE ELSE Say([reported |-> src[Ev.id].seed]) /\ FALSE
  /\ UNCHANGED src

\* n dice with two faces each (a word each) are drawn and not looked at
StepSkip ==
  /\ Ev.e = "skip"
  /\ src' = [src EXCEPT ![Ev.id].gen = Skip(@, Ev.n)]

\* k dice with n faces
Drawn(g, n, k) ==
  FoldLeft(LAMBDA a, j : LET d == NextDie(a.g, n) IN [g |-> d.g, vs |-> Append(a.vs, d.v)],
           [g |-> g, vs |-> <<>>], [j \in 1 .. k |-> j])

\* Ev.k dice with Ev.q faces are drawn, singly or in one roll
StepDraw ==
  /\ Ev.e = "draw"
  /\ LET r == Drawn(src[Ev.id].gen, Ev.q, Ev.k)
         want == [j \in 1 .. Ev.k |-> <<r.vs[j], Ev.q>>]
     IN /\ IF Ev.out = "dice" /\ Ev.dice = want THEN TRUE
           ELSE Say([out |-> "dice", dice |-> [j \in 1 .. Ev.k |-> NStr(r.vs[j])]]) /\ FALSE
        /\ src' = [src EXCEPT ![Ev.id].gen = r.g]

Next ==
  /\ l <= Len(Traces[tr])
  /\ StepNew \/ StepSeed \/ StepSkip \/ StepDraw
  /\ l' = l + 1
  /\ tr' = tr
=============================================================================
