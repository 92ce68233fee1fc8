-------------------------------- MODULE Queue --------------------------------
(* Scripted die sources and the lists of dice of their users.

   qs[i] is what source i holds, ls[j] a list belonging to a user.  Lists are
   handed in and out by value: what one side does later does not concern the
   other.  Dice are opaque values here.                                        *)
EXTENDS Integers, Sequences

\* the answer to an operation: nothing, that the source is empty, or a die
CONSTANTS None, EmptyErr

Take(l, k) == SubSeq(l, 1, k)       \* the first k items of a list

\* Each operation: new sources, new lists, answer.
R(qs, ls, ans) == [qs |-> qs, ls |-> ls, ans |-> ans]

OpNew(qs, ls, q, j, k)    == R([qs EXCEPT ![q] = Take(ls[j], k)], ls, None)
OpNewEmpty(qs, ls, q)     == R([qs EXCEPT ![q] = <<>>], ls, None)
OpPush(qs, ls, q, d)      == R([qs EXCEPT ![q] = Append(@, d)], ls, None)
OpAppend(qs, ls, q, j, k) == R([qs EXCEPT ![q] = @ \o Take(ls[j], k)], ls, None)
OpSet(qs, ls, q, j, k)    == R([qs EXCEPT ![q] = Take(ls[j], k)], ls, None)
OpClear(qs, ls, q)        == R([qs EXCEPT ![q] = <<>>], ls, None)
OpNext(qs, ls, q)         == IF qs[q] = <<>> THEN R(qs, ls, EmptyErr)
                             ELSE R([qs EXCEPT ![q] = Tail(@)], ls, Head(qs[q]))
OpDice(qs, ls, q, j)      == R(qs, [ls EXCEPT ![j] = qs[q]], None)
\* what users do with their own lists
OpWrite(qs, ls, j, i, d)  == R(qs, [ls EXCEPT ![j][i] = d], None)
OpGrow(qs, ls, j, d)      == R(qs, [ls EXCEPT ![j] = Append(@, d)], None)

\* an operation as a record
Apply(qs, ls, o) ==
  CASE o.op = "new"    -> OpNew(qs, ls, o.q, o.j, o.k)
    [] o.op = "newempty" -> OpNewEmpty(qs, ls, o.q)
    [] o.op = "push"   -> OpPush(qs, ls, o.q, o.d)
    [] o.op = "append" -> OpAppend(qs, ls, o.q, o.j, o.k)
    [] o.op = "set"    -> OpSet(qs, ls, o.q, o.j, o.k)
    [] o.op = "clear"  -> OpClear(qs, ls, o.q)
    [] o.op = "next"   -> OpNext(qs, ls, o.q)
    [] o.op = "dice"   -> OpDice(qs, ls, o.q, o.j)
    [] o.op = "write"  -> OpWrite(qs, ls, o.j, o.k, o.d)
    [] o.op = "grow"   -> OpGrow(qs, ls, o.j, o.d)
=============================================================================
