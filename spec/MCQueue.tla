------------------------------- MODULE MCQueue -------------------------------
(* All histories of a few operations on scripted sources.  The dice that are put
   in are numbered, so that every die is told from every other.               *)
EXTENDS Queue, TLC, Json, IOUtils, FiniteSets

Minus1 == -1
CONSTANTS NQ, NL, Depth

VARIABLES qs, ls, fresh, hist, given, came
vars == <<qs, ls, fresh, hist, given, came>>

Sources == 1 .. NQ
Lists == 1 .. NL
First == IF NL = 1 THEN <<<<1, 2>>>> ELSE <<<<1, 2>>, <<3>>>>

Init == /\ qs = [i \in Sources |-> <<>>] /\ ls = First /\ fresh = 3 + NL /\ hist = <<>>
        /\ given = [i \in Sources |-> <<>>] /\ came = [i \in Sources |-> <<>>]

\* (Set and New differ in the source's identity only: New is tried on its own.)
Ops ==
  {[op |-> o, q |-> q, j |-> j, k |-> k, d |-> 0] : o \in {"new", "append", "set"}, q \in Sources, j \in Lists, k \in 0 .. 3}
  \cup {[op |-> o, q |-> q, j |-> 0, k |-> 0, d |-> 0] : o \in {"newempty", "clear", "next"}, q \in Sources}
  \cup {[op |-> "push", q |-> q, j |-> 0, k |-> 0, d |-> fresh] : q \in Sources}
  \cup {[op |-> "dice", q |-> q, j |-> j, k |-> 0, d |-> 0] : q \in Sources, j \in Lists}
  \cup {[op |-> "write", q |-> 0, j |-> j, k |-> k, d |-> fresh] : j \in Lists, k \in 1 .. 3}
  \cup {[op |-> "grow", q |-> 0, j |-> j, k |-> 0, d |-> fresh] : j \in Lists}

\* whole lists, and lists without their last item
Sensible(o) ==
  /\ o.op \in {"new", "append", "set"} => o.k = Len(ls[o.j]) \/ (o.k = Len(ls[o.j]) - 1 /\ o.k >= 1)
  /\ o.op = "write" => o.k \in {1, Len(ls[o.j])} /\ o.k <= Len(ls[o.j])
  /\ o.op = "grow" => Len(ls[o.j]) < 4
  \* new and newempty only where they are not the same as set and clear
  /\ o.op \in {"new", "newempty"} => Len(hist) <= 1

Next ==
  /\ Len(hist) < Depth
  /\ \E o \in Ops :
       /\ Sensible(o)
       /\ LET r == Apply(qs, ls, o)
          IN /\ qs' = r.qs /\ ls' = r.ls
             /\ fresh' = fresh + (IF o.d = 0 THEN 0 ELSE 1)
             /\ hist' = Append(hist, o @@ [ans |-> r.ans, qs |-> r.qs, ls |-> r.ls])
             \* since its content was last replaced: what was put in, and what came out
             /\ IF o.op \in {"new", "set", "clear", "newempty"}
                THEN given' = [given EXCEPT ![o.q] = r.qs[o.q]] /\ came' = [came EXCEPT ![o.q] = <<>>]
                ELSE /\ given' = IF o.op \in {"push", "append"}
                                 THEN [given EXCEPT ![o.q] = @ \o (IF o.op = "push" THEN <<o.d>> ELSE Take(ls[o.j], o.k))]
                                 ELSE given
                     /\ came' = IF o.op = "next" /\ r.ans # EmptyErr
                                THEN [came EXCEPT ![o.q] = Append(@, r.ans)] ELSE came

\* what came out and what is still in are what was put in, in this order
FirstInFirstOut == \A i \in Sources : came[i] \o qs[i] = given[i]

\* operations on a user's list change no source, operations on a source no other
Step == hist'[Len(hist')]
Separate == [][LET o == Step
               IN /\ \A i \in Sources : i # o.q => qs'[i] = qs[i]
                  /\ \A j \in Lists : (j # o.j \/ o.op \in {"new", "append", "set"}) => ls'[j] = ls[j]]_vars

Ended == Len(hist) = Depth
Export == Ended => PrintT("CASE " \o ToJson([h |-> hist, first |-> First]))
=============================================================================
