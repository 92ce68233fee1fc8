-------------------------------- MODULE Eval --------------------------------
(* What running a command does with the dice delivered to it.

   D is the sequence of draws made so far: D[i] = [q, ok, v, s] records that a
   die with q faces was asked for and that the source delivered the value v of
   a die with s faces (ok), or an error (~ok).  All four numbers are Nums.

   Run(c, D) says where the command stands after these draws:
     s = "need"  it now draws a die with .need faces
     s = "done"  it completed with .reply
     s = "fail"  it failed
     s = "over"  a number left the 64-bit range: nothing is specified
     s = "bad"   D contains a draw the command does not make
   and .i - 1 is the number of draws it used.                              *)
EXTENDS Notation

CONSTANT MaxRerolls      \* groups of an exploding roll, rolls per compounding die

SepPart == " ＞ "
TxtCalc == "計算結果"
TxtSuccess == "成功"
TxtFailure == "失敗"
TxtCount == "成功数"
TxtMaxSum == " (最大/合計)"
TxtNoThR == "2R6>=5 あるいは 2R6[5] のように振り足し目標値を指定してください"
TxtNoThU == "2U6[5] のように振り足し目標値を指定してください"
TxtLowTh == "振り足し目標値として2以上の整数を指定してください"

Start == [s |-> "ok", i |-> 1, need |-> NZero]
Stop(st, s) == [st EXCEPT !.s = s]
OkSt(st) == st.s = "ok"

---------------------------------------------------------------------------
(* Drawing *)

\* the draw j delivered a proper die with q faces
Proper(d, q) == d.ok /\ d.s = q /\ NLe(N(1), d.v) /\ NLe(d.v, q)

Cap(n) == IF IsNat32(n) THEN ToInt(n) ELSE 99999999

\* n dice with q faces: the checks, then the draws one by one.
\* [st, v]: v the values
Dice(D, st, n, q) ==
  IF ~NLe(N(1), q) \/ ~NLe(N(1), n) THEN [st |-> Stop(st, "fail"), v |-> <<>>]
  ELSE LET want  == Cap(n)
           avail == IF Len(D) - st.i + 1 < want THEN Len(D) - st.i + 1 ELSE want
           js    == st.i .. (st.i + avail - 1)
           asks  == \A j \in js : D[j].q = q
           good  == \A j \in js : Proper(D[j], q)
           firstBad == CHOOSE j \in js : ~(D[j].q = q /\ Proper(D[j], q))
                                         /\ \A h \in st.i .. (j - 1) : D[h].q = q /\ Proper(D[h], q)
       IN IF ~asks \/ ~good
          THEN [st |-> [s |-> IF D[firstBad].q # q THEN "bad" ELSE "fail",
                        i |-> firstBad + 1, need |-> NZero], v |-> <<>>]
          ELSE [st |-> IF avail = want THEN [st EXCEPT !.i = st.i + want]
                       ELSE [s |-> "need", i |-> st.i + avail, need |-> q],
                v |-> [j \in 1 .. avail |-> D[st.i + j - 1].v]]

---------------------------------------------------------------------------
(* Integers *)

Checked(st, n) == IF InI64(n) THEN [st |-> st, v |-> n] ELSE [st |-> Stop(st, "over"), v |-> NZero]

Arith(st, e, a, b) ==
  CASE e.k = "add" -> Checked(st, NAdd(a, b))
    [] e.k = "sub" -> Checked(st, NSub(a, b))
    [] e.k = "mul" -> Checked(st, NMul(a, b))
    [] e.k = "div" -> IF b = NZero THEN [st |-> Stop(st, "fail"), v |-> NZero]
                      ELSE Checked(st, CASE e.m = ""  -> NDivDown(a, b)
                                         [] e.m = "R" -> NDivRound(a, b)
                                         [] e.m = "U" -> NDivUp(a, b))

\* the value of an expression without sum rolls; its ranges are drawn from left to right
RECURSIVE Value(_, _, _)
Value(D, st, e) ==
  IF ~OkSt(st) THEN [st |-> st, v |-> NZero]
  ELSE CASE e.k = "int" -> Checked(st, e.v)
         [] e.k = "sum" -> Checked(st, SumOfVals(e.vals))
         [] e.k = "neg" -> LET x == Value(D, st, e.e)
                           IN IF OkSt(x.st) THEN Checked(x.st, NNeg(x.v)) ELSE x
         [] OTHER ->
              LET a == Value(D, st, e.l)
                  b == Value(D, a.st, e.r)
              IN IF ~OkSt(b.st) THEN b
                 ELSE IF e.k # "rand" THEN Arith(b.st, e, a.v, b.v)
                 ELSE IF ~NLt(a.v, b.v) THEN [st |-> Stop(b.st, "fail"), v |-> NZero]
                 ELSE LET q == Checked(b.st, NAdd(NSub(b.v, a.v), N(1)))
                      IN IF ~OkSt(q.st) \/ ~InI64(NSub(a.v, N(1)))
                         THEN [st |-> Stop(q.st, "over"), v |-> NZero]
                         ELSE LET d == Dice(D, q.st, N(1), q.v)
                              IN IF ~OkSt(d.st) THEN [st |-> d.st, v |-> NZero]
                                 ELSE Checked(d.st, NAdd(NSub(a.v, N(1)), d.v[1]))

\* a tree whose ranges and roll operands have become integers: [st, v]
RECURSIVE Reduce(_, _, _)
ReduceRoll(D, st, r) ==
  LET n == Value(D, st, r.n)
      q == Value(D, n.st, r.s)
  IN [st |-> q.st, v |-> RollN(r.c, IntN(n.v), IntN(q.v))]
Reduce(D, st, e) ==
  IF ~OkSt(st) THEN [st |-> st, v |-> e]
  ELSE CASE e.k = "int"  -> LET x == Checked(st, e.v) IN [st |-> x.st, v |-> e]
         [] e.k = "roll" -> ReduceRoll(D, st, e)
         [] e.k = "rand" -> LET x == Value(D, st, e) IN [st |-> x.st, v |-> IntN(x.v)]
         [] e.k = "neg"  -> LET x == Reduce(D, st, e.e) IN [st |-> x.st, v |-> NegN(x.v)]
         [] OTHER        -> LET a == Reduce(D, st, e.l)
                                b == Reduce(D, a.st, e.r)
                            IN [st |-> b.st, v |-> [e EXCEPT !.l = a.v, !.r = b.v]]

\* a reduced tree whose rolls have been rolled, from left to right
RECURSIVE RollTree(_, _, _)
RollTree(D, st, e) ==
  IF ~OkSt(st) THEN [st |-> st, v |-> e]
  ELSE CASE e.k = "int"  -> [st |-> st, v |-> e]
         [] e.k = "roll" -> LET d == Dice(D, st, e.n.v, e.s.v)
                            IN [st |-> d.st, v |-> [k |-> "sum", vals |-> d.v]]
         [] e.k = "neg"  -> LET x == RollTree(D, st, e.e) IN [st |-> x.st, v |-> NegN(x.v)]
         [] OTHER        -> LET a == RollTree(D, st, e.l)
                                b == RollTree(D, a.st, e.r)
                            IN [st |-> b.st, v |-> [e EXCEPT !.l = a.v, !.r = b.v]]

RECURSIVE ReduceRolls(_, _, _, _)
ReduceRolls(D, st, rolls, acc) ==
  IF rolls = <<>> \/ ~OkSt(st) THEN [st |-> st, v |-> acc]
  ELSE LET r == ReduceRoll(D, st, rolls[1])
       IN ReduceRolls(D, r.st, Tail(rolls), Append(acc, r.v))

\* an optional integer: nil stays nil
ReduceOpt(D, st, e) ==
  IF e.k = "nil" THEN [st |-> st, v |-> e]
  ELSE LET x == Value(D, st, e) IN [st |-> x.st, v |-> IntN(x.v)]

ReduceMod(D, st, m) ==
  IF m.k = "nil" THEN [st |-> st, v |-> IntN(NZero)]
  ELSE LET x == Value(D, st, m.e)
           y == IF OkSt(x.st) THEN Checked(x.st, IF m.op = "-" THEN NNeg(x.v) ELSE x.v) ELSE x
           \* it is echoed as a sign and a number, and that number is a 64-bit one too
           z == IF OkSt(y.st) /\ ~InI64(NNeg(y.v)) THEN [st |-> Stop(y.st, "over"), v |-> NZero] ELSE y
       IN [st |-> z.st, v |-> IntN(z.v)]

---------------------------------------------------------------------------
(* Lists of rolls *)

\* groups of a basic roll in order
RECURSIVE BasicGroups(_, _, _, _)
BasicGroups(D, st, rolls, acc) ==
  IF rolls = <<>> \/ ~OkSt(st) THEN [st |-> st, v |-> acc]
  ELSE LET d == Dice(D, st, rolls[1].n.v, rolls[1].s.v)
       IN BasicGroups(D, d.st, Tail(rolls), acc \o d.v)

CountIf(vals, P(_)) == FoldLeft(LAMBDA c, v : IF P(v) THEN c + 1 ELSE c, 0, vals)

(* Rolls with rerolls are automata that take one die at a time.  A state has
   s = "draw" (it wants a die with a.q faces), "done" or "fail".              *)

\* the automaton with step Take from state a0 over the draws from st.i on: [st, a]
Feed(D, st, a0, Take(_, _)) ==
  LET step(x, j) ==
        IF x.s # "draw" THEN x
        ELSE IF D[j].q # x.a.q THEN [x EXCEPT !.s = "bad", !.i = j + 1]
        ELSE IF ~Proper(D[j], x.a.q) THEN [x EXCEPT !.s = "fail", !.i = j + 1]
        ELSE LET y == Take(x.a, D[j].v) IN [a |-> y, s |-> y.s, i |-> j + 1]
      \* TLC works through a fold without growing its stack of contexts
      f == FoldLeft(step, [a |-> a0, s |-> a0.s, i |-> st.i], [j \in 1 .. Len(D) - st.i + 1 |-> st.i + j - 1])
  IN IF ~OkSt(st) THEN [st |-> st, a |-> a0]
     ELSE [st |-> CASE f.s = "draw" -> [s |-> "need", i |-> f.i, need |-> f.a.q]
                    [] f.s = "done" -> [st EXCEPT !.i = f.i]
                    [] OTHER -> [s |-> f.s, i |-> f.i, need |-> NZero],
           a |-> f.a]

\* An exploding roll.  pending: the groups still to roll, each [n, q], first in
\* first out; a rolled group with k dice at or above the threshold appends one
\* group of k dice of the same kind.  groups: those rolled; cur: the one being
\* rolled, which has n dice.
StartGroup(a) ==
  IF a.pending = <<>> \/ Len(a.groups) >= MaxRerolls THEN [a EXCEPT !.s = "done"]
  ELSE LET g == Head(a.pending)
       IN IF ~NLe(N(1), g.q) \/ ~NLe(N(1), g.n) THEN [a EXCEPT !.s = "fail"]
          ELSE [a EXCEPT !.s = "draw", !.n = Cap(g.n), !.q = g.q, !.cur = <<>>, !.pending = Tail(a.pending)]

TakeExploding(th, a, v) ==
  LET cur == Append(a.cur, v)
      k == CountIf(cur, LAMBDA w : NLe(th, w))
  IN IF Len(cur) < a.n THEN [a EXCEPT !.cur = cur]
     ELSE StartGroup([a EXCEPT !.cur = <<>>, !.groups = Append(a.groups, cur),
                               !.pending = IF k > 0 THEN Append(a.pending, [n |-> N(k), q |-> a.q]) ELSE a.pending])

Explode(D, st, th, pending) ==
  LET f == Feed(D, st,
                StartGroup([s |-> "", n |-> 0, q |-> NZero, cur |-> <<>>, groups |-> <<>>, pending |-> pending]),
                LAMBDA a, v : TakeExploding(th, a, v))
  IN [st |-> f.st, v |-> f.a.groups]

\* A compounding roll.  rolls: those not begun; left: dice of the present roll
\* not begun; chain: the present die's values.  A die is rolled again while at
\* or above the threshold.
StartRoll(a) ==
  IF a.left > 0 THEN [a EXCEPT !.s = "draw", !.left = a.left - 1, !.chain = <<>>]
  ELSE IF a.rolls = <<>> THEN [a EXCEPT !.s = "done"]
  ELSE LET r == Head(a.rolls)
       IN IF ~NLe(N(1), r.q) \/ ~NLe(N(1), r.n) THEN [a EXCEPT !.s = "fail"]
          ELSE [a EXCEPT !.s = "draw", !.left = Cap(r.n) - 1, !.q = r.q, !.chain = <<>>, !.rolls = Tail(a.rolls)]

TakeCompounding(th, a, v) ==
  LET chain == Append(a.chain, v)
  IN IF NLe(th, v) /\ Len(chain) < MaxRerolls THEN [a EXCEPT !.chain = chain]
     ELSE StartRoll([a EXCEPT !.chain = <<>>, !.groups = Append(a.groups, chain)])

CompoundGroups(D, st, th, rolls) ==
  LET f == Feed(D, st,
                StartRoll([s |-> "", left |-> 0, q |-> NZero, chain |-> <<>>, groups |-> <<>>, rolls |-> rolls]),
                LAMBDA a, v : TakeCompounding(th, a, v))
  IN [st |-> f.st, v |-> f.a.groups]

---------------------------------------------------------------------------
(* Replies *)

\* a reply: its parts, the verdict of a success check and the reduced command
ReplyOf(parts, verdict) == [parts |-> parts, verdict |-> verdict]
NoReply == ReplyOf(<<>>, "")

Ended(st, c, reply) ==
  [s |-> IF OkSt(st) THEN "done" ELSE st.s, i |-> st.i, need |-> st.need,
   reply |-> IF OkSt(st) THEN reply ELSE NoReply,
   red |-> c]

RunCalc(D, c) ==
  LET x == Value(D, Start, c.e)
  IN Ended(x.st, c, ReplyOf(<<Echo(c), TxtCalc, NStr(x.v)>>, "UNSPECIFIED"))

RunChoice(D, c) ==
  LET d == Dice(D, Start, N(1), N(Len(c.items)))
  IN Ended(d.st, c, ReplyOf(<<ParenStr(ChoiceStr(c)), ItemStr(c.items[ToInt(d.v[1])])>>, "UNSPECIFIED"))

RunSum(D, c) ==
  LET r == Reduce(D, Start, c.e)
      x == RollTree(D, r.st, r.v)
      v == Value(D, x.st, x.v)
      c2 == [c EXCEPT !.e = r.v]
  IN Ended(v.st, c2, ReplyOf(<<ParenStr(Echo(c2)), Infix(x.v, TRUE), NStr(v.v)>>, "UNSPECIFIED"))

RunSumCheck(D, c) ==
  LET r == Reduce(D, Start, c.e)
      t == Value(D, r.st, c.t)
      x == RollTree(D, t.st, r.v)
      v == Value(D, x.st, x.v)
      c2 == [c EXCEPT !.e = r.v, !.t = IntN(t.v)]
      yes == NRel(c.op, v.v, t.v)
  IN Ended(v.st, c2, ReplyOf(<<ParenStr(Echo(c2)), Infix(x.v, TRUE), NStr(v.v),
                               IF yes THEN TxtSuccess ELSE TxtFailure>>,
                             IF yes THEN "SUCCESS" ELSE "FAILURE"))

RunBasic(D, c) ==
  LET r == ReduceRolls(D, Start, c.rolls, <<>>)
      g == BasicGroups(D, r.st, r.v, <<>>)
      c2 == [c EXCEPT !.rolls = r.v]
  IN Ended(g.st, c2, ReplyOf(<<ParenStr(Echo(c2)), ValsStr(g.v)>>, "UNSPECIFIED"))

CountStr(vals, op, t) == TxtCount \o ToString(CountIf(vals, LAMBDA v : NRel(op, v, t)))

RunBasicCount(D, c) ==
  LET r == ReduceRolls(D, Start, c.rolls, <<>>)
      t == Value(D, r.st, c.t)
      g == BasicGroups(D, t.st, r.v, <<>>)
      c2 == [c EXCEPT !.rolls = r.v, !.t = IntN(t.v)]
  IN Ended(g.st, c2, ReplyOf(<<ParenStr(Echo(c2)), ValsStr(g.v), CountStr(g.v, c.op, t.v)>>, "UNSPECIFIED"))

GroupsStr(groups) == Join(MapSeq(groups, ValsStr), " + ")
RollGroup(r) == [n |-> r.n.v, q |-> r.s.v]

\* th: a reduced threshold; "" when it is acceptable
ThComplaint(th, missing) ==
  IF th.k = "nil" THEN missing ELSE IF NLt(th.v, N(2)) THEN TxtLowTh ELSE ""

RunExploding(D, c) ==
  LET h == ReduceOpt(D, Start, c.th)
      r == ReduceRolls(D, h.st, c.rolls, <<>>)
      c2 == [c EXCEPT !.th = h.v, !.rolls = r.v]
      no == ThComplaint(h.v, TxtNoThR)
      g == Explode(D, r.st, h.v.v, MapSeq(r.v, RollGroup))
  IN IF ~OkSt(r.st) \/ no # "" THEN Ended(r.st, c2, ReplyOf(<<ParenStr(Echo(c2)), no>>, "UNSPECIFIED"))
     ELSE Ended(g.st, c2, ReplyOf(<<ParenStr(Echo(c2)), GroupsStr(g.v)>>, "UNSPECIFIED"))

RunExplodingCount(D, c) ==
  LET h == ReduceOpt(D, Start, c.th)
      r == ReduceRolls(D, h.st, c.rolls, <<>>)
      t == Value(D, r.st, c.t)
      th == IF h.v.k = "nil" THEN IntN(t.v) ELSE h.v
      c2 == [c EXCEPT !.th = th, !.rolls = r.v, !.t = IntN(t.v)]
      no == ThComplaint(th, TxtNoThR)
      g == Explode(D, t.st, th.v, MapSeq(r.v, RollGroup))
  IN IF ~OkSt(t.st) \/ no # "" THEN Ended(t.st, c2, ReplyOf(<<ParenStr(Echo(c2)), no>>, "UNSPECIFIED"))
     ELSE Ended(g.st, c2, ReplyOf(<<ParenStr(Echo(c2)), GroupsStr(g.v),
                                    CountStr(FlattenSeq(g.v), c.op, t.v)>>, "UNSPECIFIED"))

ChainStr(vals) == NStr(SumOfVals(vals)) \o (IF Len(vals) > 1 THEN "[" \o ValsStr(vals) \o "]" ELSE "")
ChainsStr(groups, m) == Join(MapSeq(groups, ChainStr), ",") \o ModStr(m)
MaxOf(nums) == FoldLeft(LAMBDA a, b : IF NLt(a, b) THEN b ELSE a, nums[1], nums)

RunCompounding(D, c) ==
  LET h == ReduceOpt(D, Start, c.th)
      r == ReduceRolls(D, h.st, c.rolls, <<>>)
      m == ReduceMod(D, r.st, c.mod)
      c2 == [c EXCEPT !.th = h.v, !.rolls = r.v, !.mod = m.v]
      no == ThComplaint(h.v, TxtNoThU)
      g == CompoundGroups(D, m.st, h.v.v, MapSeq(r.v, RollGroup))
      sums == MapSeq(g.v, SumOfVals)
      mx == NAdd(MaxOf(sums), m.v.v)
      tot == NAdd(FoldLeft(NAdd, NZero, sums), m.v.v)
  IN IF ~OkSt(m.st) \/ no # "" THEN Ended(m.st, c2, ReplyOf(<<ParenStr(Echo(c2)), no>>, "UNSPECIFIED"))
     ELSE IF OkSt(g.st) /\ ~(InI64(mx) /\ InI64(tot)) THEN Ended(Stop(g.st, "over"), c2, NoReply)
     ELSE Ended(g.st, c2, ReplyOf(<<ParenStr(Echo(c2)), ChainsStr(g.v, m.v.v),
                                    NStr(mx) \o "/" \o NStr(tot) \o TxtMaxSum>>, "UNSPECIFIED"))

RunCompoundingCount(D, c) ==
  LET h == ReduceOpt(D, Start, c.th)
      r == ReduceRolls(D, h.st, c.rolls, <<>>)
      m == ReduceMod(D, r.st, c.mod)
      t == Value(D, m.st, c.t)
      c2 == [c EXCEPT !.th = h.v, !.rolls = r.v, !.mod = m.v, !.t = IntN(t.v)]
      no == ThComplaint(h.v, TxtNoThU)
      g == CompoundGroups(D, t.st, h.v.v, MapSeq(r.v, RollGroup))
      sums == MapSeq(g.v, LAMBDA ch : NAdd(SumOfVals(ch), m.v.v))
  IN IF ~OkSt(t.st) \/ no # "" THEN Ended(t.st, c2, ReplyOf(<<ParenStr(Echo(c2)), no>>, "UNSPECIFIED"))
     ELSE IF OkSt(g.st) /\ ~(\A j \in 1 .. Len(sums) : InI64(sums[j])) THEN Ended(Stop(g.st, "over"), c2, NoReply)
     ELSE Ended(g.st, c2, ReplyOf(<<ParenStr(Echo(c2)), ChainsStr(g.v, m.v.v),
                                    CountStr(sums, c.op, t.v)>>, "UNSPECIFIED"))

Run(c, D) ==
  CASE c.k = "calc"   -> RunCalc(D, c)
    [] c.k = "choice" -> RunChoice(D, c)
    [] c.k = "dexpr"  -> RunSum(D, c)
    [] c.k = "dcomp"  -> RunSumCheck(D, c)
    [] c.k = "blist"  -> RunBasic(D, c)
    [] c.k = "bcomp"  -> RunBasicCount(D, c)
    [] c.k = "rlist"  -> RunExploding(D, c)
    [] c.k = "rcomp"  -> RunExplodingCount(D, c)
    [] c.k = "uexpr"  -> RunCompounding(D, c)
    [] c.k = "ucomp"  -> RunCompoundingCount(D, c)

MessageOf(game, reply) == game \o " : " \o Join(reply.parts, SepPart)
=============================================================================
