------------------------------ MODULE Notation ------------------------------
(* The echo: a command written with as few parentheses as the notation needs.

   It is written after the operands of its rolls, its ranges, thresholds,
   targets and modifiers have become integers; a rolled roll is a node
   [k |-> "sum", vals] and is written as its total and its dice. *)
EXTENDS Syntax, SequencesExt

\* how tightly an operation binds (a roll its operands, a range its bounds)
Prec(k) == CASE k \in {"add", "sub"} -> 1 [] k \in {"mul", "div"} -> 2
             [] k = "roll" -> 3 [] k = "rand" -> 4 [] OTHER -> 9

\* may the right operand be an operation of the same precedence without parentheses?
RightOpen(k) == k \in {"add", "mul"}

SumOfVals(vals) == FoldLeft(NAdd, NZero, vals)
ValsStr(vals) == Join(MapSeq(vals, NStr), ",")
SumStr(vals) == NStr(SumOfVals(vals)) \o "[" \o ValsStr(vals) \o "]"

ParenStr(s) == "(" \o s \o ")"

OpSign(k) == CASE k = "add" -> "+" [] k = "sub" -> "-" [] k = "mul" -> "*" [] k = "div" -> "/"

RECURSIVE Infix(_, _)
RECURSIVE Operand(_, _, _, _)

\* first: nothing is written before this phrase within its parentheses, so that
\* a sign needs no parentheses
Infix(e, first) ==
  CASE e.k = "int"  -> NStr(e.v)
    [] e.k = "sum"  -> SumStr(e.vals)
    [] e.k = "roll" -> Operand(e, e.n, FALSE, first) \o e.c \o Operand(e, e.s, FALSE, FALSE)
    [] e.k = "rand" -> "[" \o Operand(e, e.l, FALSE, TRUE) \o "..." \o Operand(e, e.r, FALSE, FALSE) \o "]"
    [] e.k = "neg"  -> IF e.e.k \in InfixKinds \cup {"neg"}
                       THEN "-" \o ParenStr(Infix(e.e, TRUE))
                       ELSE "-" \o Infix(e.e, first)
    [] e.k \in InfixKinds ->
         (IF e.l.k = "neg" /\ first THEN Infix(e.l, TRUE) ELSE Operand(e, e.l, TRUE, first))
         \o OpSign(e.k)
         \o Operand(e, e.r, RightOpen(e.k), FALSE)
         \o (IF e.k = "div" THEN e.m ELSE "")

Operand(e, x, open, first) ==
  IF x.k = "neg" THEN ParenStr(Infix(x, first))
  ELSE IF x.k \in InfixKinds \cup {"roll", "rand"} /\ (Prec(x.k) < Prec(e.k) \/ (Prec(x.k) = Prec(e.k) /\ ~open))
       THEN ParenStr(Infix(x, TRUE))
       ELSE Infix(x, first)

RollsStr(rolls) == Join(MapSeq(rolls, LAMBDA r : Infix(r, TRUE)), "+")
ThStr(th) == IF th.k = "nil" THEN "" ELSE "[" \o Infix(th, TRUE) \o "]"

\* a modifier with its sign; nothing for zero
ModStr(n) == IF n = NZero THEN "" ELSE IF n[1] > 0 THEN "+" \o NStr(n) ELSE NStr(n)

ItemStr(item) == Cat(item)

\* the same as a sequence of characters (those beyond 16 bits are one each)
RECURSIVE ItemsFrom(_, _)
ItemsFrom(items, i) == IF i > Len(items) THEN <<"]">>
                       ELSE (IF i = 1 THEN <<>> ELSE <<",">>) \o items[i] \o ItemsFrom(items, i + 1)
ChoiceChars(c) == Chars("CHOICE[") \o ItemsFrom(c.items, 1)
ChoiceStr(c) == "CHOICE[" \o Join(MapSeq(c.items, ItemStr), ",") \o "]"

\* The echo of a reduced command: integers in place of operands, thresholds,
\* targets (c.t) and modifiers (c.mod)
Echo(c) ==
  CASE c.k = "calc"   -> "C(" \o Infix(c.e, TRUE) \o ")"
    [] c.k = "choice" -> ChoiceStr(c)
    [] c.k = "dexpr"  -> Infix(c.e, TRUE)
    [] c.k = "dcomp"  -> Infix(c.e, TRUE) \o c.op \o NStr(c.t.v)
    [] c.k = "blist"  -> RollsStr(c.rolls)
    [] c.k = "bcomp"  -> RollsStr(c.rolls) \o c.op \o NStr(c.t.v)
    [] c.k = "rlist"  -> RollsStr(c.rolls) \o ThStr(c.th)
    [] c.k = "rcomp"  -> RollsStr(c.rolls) \o ThStr(c.th) \o c.op \o NStr(c.t.v)
    [] c.k = "uexpr"  -> RollsStr(c.rolls) \o ThStr(c.th) \o ModStr(c.mod.v)
    [] c.k = "ucomp"  -> RollsStr(c.rolls) \o ThStr(c.th) \o ModStr(c.mod.v) \o c.op \o NStr(c.t.v)

\* what is echoed as a text
EchoTextOf(c) == IF c.k = "choice" THEN ChoiceChars(c) ELSE Chars(Echo(c))

---------------------------------------------------------------------------
(* A command as it was typed, before anything of it is reduced *)

ModTyped(m) == IF m.k = "nil" THEN ""
               ELSE m.op \o Operand([k |-> IF m.op = "+" THEN "add" ELSE "sub"], m.e, m.op = "+", FALSE)

Written(c) ==
  CASE c.k \in {"calc", "choice", "dexpr", "blist", "rlist"} -> Echo(c)
    [] c.k = "dcomp"  -> Infix(c.e, TRUE) \o c.op \o Infix(c.t, TRUE)
    [] c.k = "bcomp"  -> RollsStr(c.rolls) \o c.op \o Infix(c.t, TRUE)
    [] c.k = "rcomp"  -> RollsStr(c.rolls) \o ThStr(c.th) \o c.op \o Infix(c.t, TRUE)
    [] c.k = "uexpr"  -> RollsStr(c.rolls) \o ThStr(c.th) \o ModTyped(c.mod)
    [] c.k = "ucomp"  -> RollsStr(c.rolls) \o ThStr(c.th) \o ModTyped(c.mod) \o c.op \o Infix(c.t, TRUE)

\* The same command but for regrouping of sums and products.  The modifier hangs
\* on the list of rolls, which stands for an integer here.
RECURSIVE Flat(_)
Flat(e) == CASE e.k \in {"int", "sum", "nil"} -> e
             [] e.k = "roll" -> [e EXCEPT !.n = Flat(e.n), !.s = Flat(e.s)]
             [] e.k = "neg" -> NegN(Flat(e.e))
             [] e.k = "add" /\ e.r.k = "add" -> Flat(AddN(AddN(e.l, e.r.l), e.r.r))
             [] e.k = "add" /\ e.r.k = "sub" -> Flat(SubN(AddN(e.l, e.r.l), e.r.r))
             [] e.k = "mul" /\ e.r.k = "mul" -> Flat(MulN(MulN(e.l, e.r.l), e.r.r))
             [] OTHER -> [e EXCEPT !.l = Flat(e.l), !.r = Flat(e.r)]

FlatMod(m) == IF m.k = "nil" THEN m
              ELSE Flat(IF m.op = "+" THEN AddN(IntN(N(1)), m.e) ELSE SubN(IntN(N(1)), m.e))

FlatCommand(c) ==
  CASE c.k \in {"calc", "dexpr"} -> <<c.k, Flat(c.e)>>
    [] c.k = "choice" -> <<c.k, c.items>>
    [] c.k = "dcomp"  -> <<c.k, Flat(c.e), c.op, Flat(c.t)>>
    [] c.k = "blist"  -> <<c.k, MapSeq(c.rolls, Flat)>>
    [] c.k = "bcomp"  -> <<c.k, MapSeq(c.rolls, Flat), c.op, Flat(c.t)>>
    [] c.k = "rlist"  -> <<c.k, MapSeq(c.rolls, Flat), Flat(c.th)>>
    [] c.k = "rcomp"  -> <<c.k, MapSeq(c.rolls, Flat), Flat(c.th), c.op, Flat(c.t)>>
    [] c.k = "uexpr"  -> <<c.k, MapSeq(c.rolls, Flat), Flat(c.th), FlatMod(c.mod)>>
    [] c.k = "ucomp"  -> <<c.k, MapSeq(c.rolls, Flat), Flat(c.th), FlatMod(c.mod), c.op, Flat(c.t)>>

\* a product with a quotient as its right operand is written without the
\* parentheses it would need (known finding)
RECURSIVE HasDiv(_)
HasDiv(e) == CASE e.k \in {"int", "sum", "roll", "rand", "neg"} -> FALSE
               [] e.k = "div" -> TRUE
               [] e.k = "mul" -> HasDiv(e.l) \/ HasDiv(e.r)
               [] OTHER -> FALSE

RECURSIVE QuotientInProduct(_)
QuotientInProduct(e) ==
  CASE e.k \in {"int", "sum", "nil"} -> FALSE
    [] e.k = "roll" -> QuotientInProduct(e.n) \/ QuotientInProduct(e.s)
    [] e.k = "neg" -> QuotientInProduct(e.e)
    [] OTHER -> (e.k = "mul" /\ e.r.k \in {"div", "mul"} /\ HasDiv(e.r))
                \/ QuotientInProduct(e.l) \/ QuotientInProduct(e.r)

KnownTyped(c) ==
  CASE c.k \in {"calc", "dexpr"} -> QuotientInProduct(c.e)
    [] c.k = "choice" -> FALSE
    [] c.k = "dcomp" -> QuotientInProduct(c.e) \/ QuotientInProduct(c.t)
    [] OTHER -> \/ \E i \in 1 .. Len(c.rolls) : QuotientInProduct(c.rolls[i])
                \/ c.k \in {"rlist", "rcomp", "uexpr", "ucomp"} /\ QuotientInProduct(c.th)
                \/ c.k \in {"uexpr", "ucomp"} /\ c.mod.k # "nil" /\ QuotientInProduct(c.mod.e)
                \/ c.k \in {"bcomp", "rcomp", "ucomp"} /\ QuotientInProduct(c.t)

TypedText(c) == IF c.k = "choice" THEN ChoiceChars(c) ELSE Chars(Written(c))

TypedReadsBack(c) ==
  LET p == Parse(TypedText(c))
  IN p.ok /\ (KnownTyped(c) \/ FlatCommand(p.v) = FlatCommand(c))

\* positions of the parentheses of t: the one that closes p
RECURSIVE Closing(_, _, _)
Closing(t, p, depth) ==
  IF t[p] = ")" /\ depth = 1 THEN p
  ELSE Closing(t, p + 1, depth + (IF t[p] = "(" THEN 1 ELSE IF t[p] = ")" THEN -1 ELSE 0))

Without(t, p, q) == SubSeq(t, 1, p - 1) \o SubSeq(t, p + 1, q - 1) \o SubSeq(t, q + 1, Len(t))

\* without one pair of its parentheses (those of a calculation and those
\* around a sign aside) the text is no command, or another one
TypedMinimal(c) ==
  LET t == TypedText(c)
      whole == FlatCommand(Parse(t).v)
      first == IF c.k = "calc" THEN 3 ELSE 1
  IN c.k = "choice" \/
     \A p \in first .. Len(t) :
       (t[p] = "(" /\ t[p + 1] # "-") =>
         LET w == Parse(Without(t, p, Closing(t, p, 0)))
         IN w.ok => FlatCommand(w.v) # whole
=============================================================================
