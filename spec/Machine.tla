------------------------------- MODULE Machine -------------------------------
(* One command as a machine.

   A text is submitted and either refused or run; a running command draws its
   dice one at a time and finally completes with a reply or fails.  The die
   source may at any draw deliver a proper die, a wrong one or an error.      *)
EXTENDS TraceExec, FiniteSets

CONSTANTS Submissions,     \* the texts (sequences of characters) that are submitted
          FaultKinds,      \* which improper draws the source may make
          MaxFaces         \* draws of dice with more faces than this: only some values

VARIABLES pc,      \* "idle", "running", "refused", "replied", "failed", "unspecified"
          text,    \* the text submitted
          cmd,     \* its structure
          D,       \* the draws made for it
          res      \* where the command stands after them

mvars == <<pc, text, cmd, D, res>>

Idle == [s |-> "idle"]

MInit == pc = "idle" /\ text = <<>> /\ D = <<>> /\ cmd = NilN /\ res = Idle

Submit(s) ==
  /\ pc = "idle"
  /\ text' = s
  /\ D' = <<>>
  /\ LET p == ParseInput(s)
     IN IF p.ok THEN pc' = "running" /\ cmd' = p.v /\ res' = Run(p.v, <<>>)
                ELSE pc' = "refused" /\ cmd' = NilN /\ res' = Idle

Fault(kind, q) ==
  CASE kind = "error" -> [q |-> q, ok |-> FALSE, v |-> NZero, s |-> NZero]
    [] kind = "faces" -> [q |-> q, ok |-> TRUE, v |-> N(1), s |-> NAdd(q, N(1))]
    [] kind = "zero"  -> [q |-> q, ok |-> TRUE, v |-> NZero, s |-> q]
    [] kind = "above" -> [q |-> q, ok |-> TRUE, v |-> NAdd(q, N(1)), s |-> q]

Faces(q) == IF q <= MaxFaces THEN 1 .. q ELSE {1, 2, q \div 2, q - 1, q}
ProperDice(q) == {[q |-> q, ok |-> TRUE, v |-> N(v), s |-> q] : v \in Faces(ToInt(q))}
ImproperDice(q) == {Fault(kind, q) : kind \in FaultKinds}

\* the source delivers one die, proper or not
Draw ==
  /\ pc = "running" /\ res.s = "need" /\ IsNat32(res.need)
  /\ \E d \in ProperDice(res.need) \cup ImproperDice(res.need) :
       D' = Append(D, d) /\ res' = Run(cmd, Append(D, d))
  /\ UNCHANGED <<pc, text, cmd>>

Complete == pc = "running" /\ res.s = "done" /\ pc' = "replied" /\ UNCHANGED <<text, cmd, D, res>>
Abort == pc = "running" /\ res.s = "fail" /\ pc' = "failed" /\ UNCHANGED <<text, cmd, D, res>>

\* a number left the 64-bit range: nothing more is said about this command
Overflow == pc = "running" /\ res.s = "over" /\ pc' = "unspecified" /\ UNCHANGED <<text, cmd, D, res>>

MNext == (\E s \in Submissions : Submit(s)) \/ Draw \/ Complete \/ Abort \/ Overflow

MSpec == MInit /\ [][MNext]_mvars

Ended_ == pc \in {"refused", "replied", "failed"}

---------------------------------------------------------------------------
(* Properties of the machine *)

\* A draw that is not asked for is never made, and a command never stops half way.
Accounting ==
  pc = "running" => /\ res.s \in {"need", "done", "fail", "over"}
                    /\ res.s # "over" => res.i = Len(D) + 1

RefusedDrawsNothing == pc = "refused" => D = <<>>

\* Every draw of a replied command is proper; a failed command stopped at the
\* first improper one, or without any.
ImproperEnds ==
  /\ pc = "replied" => \A i \in 1 .. Len(D) : Proper(D[i], D[i].q)
  /\ pc \in {"running", "failed"} => \A i \in 1 .. Len(D) - 1 : Proper(D[i], D[i].q)
  /\ (pc = "running" /\ D # <<>> /\ ~Proper(D[Len(D)], D[Len(D)].q)) => res.s = "fail"

DrawnVals == [i \in 1 .. Len(D) |-> D[i].v]

\* what the reply shows to be drawn
FacesAtLeastOne == \A i \in 1 .. Len(D) : NLe(N(1), D[i].q)

---------------------------------------------------------------------------
(* The sum roll once more: the value of the original tree, its dice taken in
   the order ranges first, rolls then, each from left to right; independent of
   Reduce and RollTree. *)

ArithV(e, a, b) == CASE e.k = "add" -> NAdd(a, b) [] e.k = "sub" -> NSub(a, b)
                     [] e.k = "mul" -> NMul(a, b)
                     [] e.k = "div" -> CASE e.m = "" -> NDivDown(a, b)
                                         [] e.m = "R" -> NDivRound(a, b)
                                         [] e.m = "U" -> NDivUp(a, b)

\* ri: number of ranges before e; di: number of dice of rolls before e.  [v, di]
RECURSIVE Direct(_, _, _, _)
Direct(e, ri, di, nr) ==
  CASE e.k = "int" -> [v |-> e.v, di |-> di]
    [] e.k = "neg" -> LET x == Direct(e.e, ri, di, nr) IN [v |-> NNeg(x.v), di |-> x.di]
    [] e.k = "rand" -> LET a == Direct(e.l, ri, di, nr)
                       IN [v |-> NAdd(NSub(a.v, N(1)), D[ri + 1].v), di |-> di]
    [] e.k = "roll" -> LET n == ToInt(Direct(e.n, ri, di, nr).v)
                       IN [v |-> FoldLeft(NAdd, NZero, [i \in 1 .. n |-> D[nr + di + i].v]), di |-> di + n]
    [] OTHER -> LET a == Direct(e.l, ri, di, nr)
                    b == Direct(e.r, ri + CountRanges(e.l), a.di, nr)
                IN [v |-> ArithV(e, a.v, b.v), di |-> b.di]

DirectTotal(e) == Direct(e, 0, 0, CountRanges(e)).v

SumRollTotal ==
  (pc = "replied" /\ cmd.k \in {"dexpr", "dcomp"}) =>
     res.reply.parts[3] = NStr(DirectTotal(cmd.e))

\* the verdict is that of the total and the target
VerdictTrue ==
  pc = "replied" =>
    IF cmd.k = "dcomp"
    THEN LET yes == NRel(cmd.op, DirectTotal(cmd.e), res.red.t.v)
         IN /\ res.reply.verdict = IF yes THEN "SUCCESS" ELSE "FAILURE"
            /\ res.reply.parts[4] = IF yes THEN TxtSuccess ELSE TxtFailure
    ELSE res.reply.verdict = "UNSPECIFIED"

---------------------------------------------------------------------------
(* Lists of rolls: what the dice say, independent of the automata *)

NumRanges == RangesOf(cmd)
RollVals == [i \in 1 .. Len(D) - NumRanges |-> D[NumRanges + i].v]
RollFaces == [i \in 1 .. Len(D) - NumRanges |-> D[NumRanges + i].q]

Sizes(c) == MapSeq(c.rolls, LAMBDA r : ToInt(r.n.v))
SumSeq(q) == FoldLeft(LAMBDA a, b : a + b, 0, q)

Hits(vals, P(_)) == Cardinality({i \in 1 .. Len(vals) : P(vals[i])})

\* a basic roll draws and lists just the dice written, and counts the fitting ones
BasicLists ==
  (pc = "replied" /\ cmd.k \in {"blist", "bcomp"}) =>
    /\ Len(RollVals) = SumSeq(Sizes(res.red))
    /\ res.reply.parts[2] = ValsStr(RollVals)
    /\ cmd.k = "bcomp" =>
         res.reply.parts[3] = TxtCount \o ToString(Hits(RollVals, LAMBDA v : NRel(cmd.op, v, res.red.t.v)))

\* Exploding: cut the dice into groups by their sizes.  sizes: those still to
\* come, in order of creation; every group with hits has announced one more.
RECURSIVE CutGroups(_, _, _, _)
CutGroups(vals, sizes, th, acc) ==
  IF sizes = <<>> \/ vals = <<>> THEN [left |-> vals, groups |-> acc, open |-> sizes]
  ELSE LET g == SubSeq(vals, 1, Head(sizes))
           h == Hits(g, LAMBDA v : ~NLt(v, th))
       IN CutGroups(SubSeq(vals, Head(sizes) + 1, Len(vals)),
                    IF h = 0 THEN Tail(sizes) ELSE Append(Tail(sizes), h), th, Append(acc, g))

Rejected(c) == c.th.k = "nil" \/ NLt(c.th.v, N(2))

ExplodingGroups ==
  (pc = "replied" /\ cmd.k \in {"rlist", "rcomp"}) =>
    IF Rejected(res.red) THEN RollVals = <<>> /\ Len(res.reply.parts) = 2
    ELSE LET c == CutGroups(RollVals, Sizes(res.red), res.red.th.v, <<>>)
         IN /\ c.left = <<>>
            /\ c.open = <<>> \/ Len(c.groups) = MaxRerolls
            /\ Len(c.groups) <= MaxRerolls
            /\ res.reply.parts[2] = Join(MapSeq(c.groups, ValsStr), " + ")
            \* one die more for every die at or above the threshold
            /\ c.open = <<>> =>
                 Len(RollVals) = SumSeq(Sizes(res.red)) + Hits(RollVals, LAMBDA v : ~NLt(v, res.red.th.v))
            /\ cmd.k = "rcomp" =>
                 res.reply.parts[3] =
                   TxtCount \o ToString(Hits(RollVals, LAMBDA v : NRel(cmd.op, v, res.red.t.v)))

\* Compounding: a chain ends with a die below the threshold or at the limit.
RECURSIVE CutChains(_, _, _, _)
CutChains(vals, th, cur, acc) ==
  IF vals = <<>> THEN [groups |-> acc, open |-> cur]
  ELSE LET c == Append(cur, Head(vals))
       IN IF NLt(Head(vals), th) \/ Len(c) = MaxRerolls
          THEN CutChains(Tail(vals), th, <<>>, Append(acc, c))
          ELSE CutChains(Tail(vals), th, c, acc)

CompoundingChains ==
  (pc = "replied" /\ cmd.k \in {"uexpr", "ucomp"}) =>
    IF Rejected(res.red) THEN RollVals = <<>> /\ Len(res.reply.parts) = 2
    ELSE LET c == CutChains(RollVals, res.red.th.v, <<>>, <<>>)
             m == res.red.mod.v
             sums == [i \in 1 .. Len(c.groups) |-> NAdd(SumOfVals(c.groups[i]), m)]
             total == NAdd(SumOfVals(RollVals), m)
             best == CHOOSE x \in {sums[i] : i \in 1 .. Len(sums)} : \A y \in {sums[i] : i \in 1 .. Len(sums)} : NLe(y, x)
         IN /\ c.open = <<>>
            /\ Len(c.groups) = SumSeq(Sizes(res.red))
            /\ IF cmd.k = "uexpr"
               THEN res.reply.parts[3] = NStr(best) \o "/" \o NStr(total) \o TxtMaxSum
               ELSE res.reply.parts[3] =
                      TxtCount \o ToString(Hits(sums, LAMBDA v : NRel(cmd.op, v, res.red.t.v)))

\* every die has the faces of its roll
FacesOfRolls ==
  (pc = "replied" /\ cmd.k \notin {"calc", "choice"} /\ Len(RollVals) > 0) =>
     \A i \in 1 .. Len(RollFaces) :
        cmd.k \in {"dexpr", "dcomp"} \/ \E j \in 1 .. Len(res.red.rolls) : res.red.rolls[j].s.v = RollFaces[i]

ChoosesListed ==
  (pc = "replied" /\ cmd.k = "choice") =>
    /\ Len(D) = 1 /\ D[1].q = N(Len(cmd.items))
    /\ res.reply.parts[2] = ItemStr(cmd.items[ToInt(D[1].v)])

\* a range stands for one of its integers, and its die has one face for each
RangesInBounds ==
  (pc \in {"running", "replied"}) => \A i \in 1 .. Len(D) : Proper(D[i], D[i].q) \/ i = Len(D)

---------------------------------------------------------------------------
(* The echo *)

EchoText == EchoTextOf(res.red)

EchoReadsBack == pc = "replied" => ReadsBack(cmd, res, D)

\* Parentheses are only written where leaving them out changes the reading,
\* or around a signed term that is not the first.
MinimalEcho ==
  (pc = "replied" /\ cmd.k \in {"calc", "dexpr"}) =>
    LET t == EchoText
        whole == Flat(Parse(t).v.e)
        first == IF cmd.k = "calc" THEN 3 ELSE 1
    IN \A p \in first .. Len(t) :
         (t[p] = "(" /\ t[p + 1] # "-") =>
            LET w == Parse(Without(t, p, Closing(t, p, 0)))
            IN w.ok => Flat(w.v.e) # whole
=============================================================================
