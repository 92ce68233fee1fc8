------------------------------- MODULE Syntax -------------------------------
(* The dice notation: which texts are commands, and of what structure.

   A text t is a sequence of characters.  Every grammar operator takes a text
   and a position and yields [ok, p, v]: whether a phrase of that kind starts
   there, the position after it, and its tree.  Phrases are the longest that
   the ordered alternatives give; a phrase once taken is not reconsidered. *)
EXTENDS Text, Num

Fail == [ok |-> FALSE, p |-> 0, v |-> [k |-> "none"]]
Got(p, v) == [ok |-> TRUE, p |-> p, v |-> v]

IntN(n)        == [k |-> "int", v |-> n]
AddN(a, b)     == [k |-> "add", l |-> a, r |-> b]
SubN(a, b)     == [k |-> "sub", l |-> a, r |-> b]
MulN(a, b)     == [k |-> "mul", l |-> a, r |-> b]
DivN(m, a, b)  == [k |-> "div", m |-> m, l |-> a, r |-> b]     \* m: "", "R", "U"
NegN(e)        == [k |-> "neg", e |-> e]
RollN(c, n, s) == [k |-> "roll", c |-> c, n |-> n, s |-> s]    \* c: "D", "B", "R", "U"
RandN(a, b)    == [k |-> "rand", l |-> a, r |-> b]
NilN           == [k |-> "nil"]

InfixKinds == {"add", "sub", "mul", "div"}

---------------------------------------------------------------------------
(* terminals *)

RECURSIVE DigitsEnd(_, _)
DigitsEnd(t, p) == IF At(t, p) \in DigitChars THEN DigitsEnd(t, p + 1) ELSE p

Integer(t, p) ==
  LET q == DigitsEnd(t, p)
  IN IF q = p THEN Fail ELSE Got(q, IntN(NOfDigits(t, p, q - 1)))

Is(t, p, c) == At(t, p) = c
IsCI(t, p, c) == Lower(At(t, p)) = c

\* the word w (lower case characters) without regard to case
WordCI(t, p, w) == \A i \in 1 .. Len(w) : IsCI(t, p + i - 1, w[i])

CompareOpAt(t, p) ==
  LET a == At(t, p) b == At(t, p + 1)
  IN IF a = "=" THEN "="
     ELSE IF a = "<" THEN (IF b = ">" THEN "<>" ELSE IF b = "=" THEN "<=" ELSE "<")
     ELSE IF a = ">" THEN (IF b = "=" THEN ">=" ELSE ">")
     ELSE ""

OpLen(op) == IF op \in {"<>", "<=", ">="} THEN 2 ELSE 1

---------------------------------------------------------------------------
(* Expressions.  The mode m says which primaries are admitted:
     "int"  integers only            (calculations, targets, thresholds, modifiers)
     "rand" integers and ranges      (operands of rolls)
     "sum"  integers, ranges, rolls  (sum rolls)                              *)

RECURSIVE Primary(_, _, _)
RECURSIVE Product(_, _, _)
RECURSIVE ProductRest(_, _, _, _)
RECURSIVE Sum(_, _, _)
RECURSIVE SumRest(_, _, _, _)

Paren(t, p, m) ==
  IF ~Is(t, p, "(") THEN Fail
  ELSE LET e == Sum(t, p + 1, m)
       IN IF e.ok /\ Is(t, e.p, ")") THEN Got(e.p + 1, e.v) ELSE Fail

RangeBound(t, p) == LET i == Integer(t, p) IN IF i.ok THEN i ELSE Paren(t, p, "int")

RangePhrase(t, p) ==
  IF ~Is(t, p, "[") THEN Fail
  ELSE LET a == RangeBound(t, p + 1)
       IN IF ~(a.ok /\ Is(t, a.p, ".") /\ Is(t, a.p + 1, ".") /\ Is(t, a.p + 2, ".")) THEN Fail
          ELSE LET b == RangeBound(t, a.p + 3)
               IN IF b.ok /\ Is(t, b.p, "]") THEN Got(b.p + 1, RandN(a.v, b.v)) ELSE Fail

RollOperand(t, p) ==
  LET i == Integer(t, p)
  IN IF i.ok THEN i
     ELSE LET r == RangePhrase(t, p) IN IF r.ok THEN r ELSE Paren(t, p, "rand")

RollUpper(c) == CASE c = "d" -> "D" [] c = "b" -> "B" [] c = "r" -> "R" [] c = "u" -> "U"

\* c: the letter of the roll, lower case
Roll(t, p, c) ==
  LET a == RollOperand(t, p)
  IN IF ~(a.ok /\ IsCI(t, a.p, c)) THEN Fail
     ELSE LET b == RollOperand(t, a.p + 1)
          IN IF b.ok THEN Got(b.p, RollN(RollUpper(c), a.v, b.v)) ELSE Fail

Signed(t, p, m) ==
  IF Is(t, p, "+") THEN Primary(t, p + 1, m)
  ELSE IF Is(t, p, "-")
       THEN LET e == Primary(t, p + 1, m) IN IF e.ok THEN Got(e.p, NegN(e.v)) ELSE Fail
       ELSE Paren(t, p, m)

Primary(t, p, m) ==
  LET d == IF m = "sum" THEN Roll(t, p, "d") ELSE Fail
  IN IF d.ok THEN d
     ELSE LET i == Integer(t, p)
          IN IF i.ok THEN i
             ELSE LET r == IF m = "int" THEN Fail ELSE RangePhrase(t, p)
                  IN IF r.ok THEN r ELSE Signed(t, p, m)

Product(t, p, m) ==
  LET f == Primary(t, p, m) IN IF f.ok THEN ProductRest(t, f.p, m, f.v) ELSE Fail

ProductRest(t, p, m, left) ==
  IF Is(t, p, "/")
  THEN LET e == Primary(t, p + 1, m)
       IN IF ~e.ok THEN Got(p, left)
          ELSE IF IsCI(t, e.p, "u") THEN ProductRest(t, e.p + 1, m, DivN("U", left, e.v))
          ELSE IF IsCI(t, e.p, "r") THEN ProductRest(t, e.p + 1, m, DivN("R", left, e.v))
          ELSE ProductRest(t, e.p, m, DivN("", left, e.v))
  ELSE IF Is(t, p, "*")
  THEN LET e == Primary(t, p + 1, m)
       IN IF e.ok THEN ProductRest(t, e.p, m, MulN(left, e.v)) ELSE Got(p, left)
  ELSE Got(p, left)

Sum(t, p, m) ==
  LET f == Product(t, p, m) IN IF f.ok THEN SumRest(t, f.p, m, f.v) ELSE Fail

SumRest(t, p, m, left) ==
  IF At(t, p) \in {"+", "-"}
  THEN LET e == Product(t, p + 1, m)
       IN IF ~e.ok THEN Got(p, left)
          ELSE SumRest(t, e.p, m, IF Is(t, p, "+") THEN AddN(left, e.v) ELSE SubN(left, e.v))
  ELSE Got(p, left)

---------------------------------------------------------------------------
(* Lists of rolls *)

RECURSIVE RollsRest(_, _, _, _)
RollsRest(t, p, c, acc) ==
  IF ~Is(t, p, "+") THEN Got(p, acc)
  ELSE LET r == Roll(t, p + 1, c)
       IN IF r.ok THEN RollsRest(t, r.p, c, Append(acc, r.v)) ELSE Got(p, acc)

Rolls(t, p, c) ==
  LET r == Roll(t, p, c) IN IF r.ok THEN RollsRest(t, r.p, c, <<r.v>>) ELSE Fail

\* rolls with an optional bracketed threshold: v = [rolls, th]
RollsThreshold(t, p, c) ==
  LET r == Rolls(t, p, c)
  IN IF ~r.ok THEN Fail
     ELSE LET e == IF Is(t, r.p, "[") THEN Sum(t, r.p + 1, "int") ELSE Fail
          IN IF e.ok /\ Is(t, e.p, "]")
             THEN Got(e.p + 1, [rolls |-> r.v, th |-> e.v])
             ELSE Got(r.p, [rolls |-> r.v, th |-> NilN])

\* everything added or subtracted after the rolls: v = its terms, each [op, e]
RECURSIVE TermsRest(_, _, _)
TermsRest(t, p, acc) ==
  IF At(t, p) \notin {"+", "-"} THEN Got(p, acc)
  ELSE LET e == Product(t, p + 1, "int")
       IN IF e.ok THEN TermsRest(t, e.p, Append(acc, [op |-> At(t, p), e |-> e.v]))
                  ELSE Got(p, acc)

\* left-associated sum of the terms i.. onto acc
RECURSIVE FoldTerms(_, _, _)
FoldTerms(acc, terms, i) ==
  IF i > Len(terms) THEN acc
  ELSE FoldTerms(IF terms[i].op = "+" THEN AddN(acc, terms[i].e) ELSE SubN(acc, terms[i].e),
                 terms, i + 1)

\* the modifier as a sign and a tree, as the command is written down
ModifierOf(terms) ==
  IF terms = <<>> THEN NilN
  ELSE IF Len(terms) = 1
       THEN [k |-> "mod", op |-> terms[1].op, e |-> terms[1].e]
       ELSE [k |-> "mod", op |-> "+",
             e |-> FoldTerms(IF terms[1].op = "-" THEN NegN(terms[1].e) ELSE terms[1].e,
                             terms, 2)]

URolls(t, p) ==
  LET r == RollsThreshold(t, p, "u")
  IN IF ~r.ok THEN Fail
     ELSE LET b == TermsRest(t, r.p, <<>>)
          IN Got(b.p, [rolls |-> r.v.rolls, th |-> r.v.th, mod |-> ModifierOf(b.v)])

---------------------------------------------------------------------------
(* Commands *)

\* phrase f followed by a comparison: v = [op, r]; not a phrase when none follows
Compared(t, f) ==
  IF ~f.ok THEN Fail
  ELSE LET op == CompareOpAt(t, f.p)
       IN IF op = "" THEN Fail
          ELSE LET e == Sum(t, f.p + OpLen(op), "int")
               IN IF e.ok THEN Got(e.p, [op |-> op, r |-> e.v]) ELSE Fail

RECURSIVE HasRandom(_)
HasRandom(e) ==
  CASE e.k \in {"rand", "roll"} -> TRUE
    [] e.k = "int" -> FALSE
    [] e.k = "neg" -> HasRandom(e.e)
    [] OTHER -> HasRandom(e.l) \/ HasRandom(e.r)

\* the first of the command forms that matches a prefix of t
RollCommand(t) ==
  LET b  == Rolls(t, 1, "b")          bc == Compared(t, b)
      r  == RollsThreshold(t, 1, "r") rc == Compared(t, r)
      u  == URolls(t, 1)              uc == Compared(t, u)
      d  == Sum(t, 1, "sum")          dc == Compared(t, d)
  IN IF bc.ok THEN Got(bc.p, [k |-> "bcomp", rolls |-> b.v, op |-> bc.v.op, t |-> bc.v.r])
     ELSE IF b.ok THEN Got(b.p, [k |-> "blist", rolls |-> b.v])
     ELSE IF rc.ok THEN Got(rc.p, [k |-> "rcomp", rolls |-> r.v.rolls, th |-> r.v.th,
                                   op |-> rc.v.op, t |-> rc.v.r])
     ELSE IF r.ok THEN Got(r.p, [k |-> "rlist", rolls |-> r.v.rolls, th |-> r.v.th])
     ELSE IF uc.ok THEN Got(uc.p, [k |-> "ucomp", rolls |-> u.v.rolls, th |-> u.v.th,
                                   mod |-> u.v.mod, op |-> uc.v.op, t |-> uc.v.r])
     ELSE IF u.ok THEN Got(u.p, [k |-> "uexpr", rolls |-> u.v.rolls, th |-> u.v.th,
                                 mod |-> u.v.mod])
     ELSE IF dc.ok THEN IF HasRandom(d.v)
                        THEN Got(dc.p, [k |-> "dcomp", e |-> d.v, op |-> dc.v.op, t |-> dc.v.r])
                        ELSE Fail
     ELSE IF d.ok /\ HasRandom(d.v) THEN Got(d.p, [k |-> "dexpr", e |-> d.v])
     ELSE Fail

ChoiceWord == <<"c", "h", "o", "i", "c", "e", "[">>

RECURSIVE SkipBlanks(_, _)
SkipBlanks(t, p) == IF At(t, p) \in BlankChars THEN SkipBlanks(t, p + 1) ELSE p

RECURSIVE ItemEnd(_, _)
ItemEnd(t, p) == IF At(t, p) \in {"", ",", "]", "BAD"} THEN p ELSE ItemEnd(t, p + 1)

ChoiceItem(t, p) ==
  LET i == SkipBlanks(t, p)
      j == ItemEnd(t, i)
  IN IF i = j THEN Fail ELSE Got(j, TrimBlanks(SubSeq(t, i, j - 1)))

RECURSIVE ChoiceRest(_, _, _)
ChoiceRest(t, p, acc) ==
  IF ~Is(t, p, ",") THEN Got(p, acc)
  ELSE LET i == ChoiceItem(t, p + 1)
       IN IF i.ok THEN ChoiceRest(t, i.p, Append(acc, i.v)) ELSE Got(p, acc)

Choice(t) ==
  IF ~WordCI(t, 1, ChoiceWord) THEN Fail
  ELSE LET f == ChoiceItem(t, 8)
       IN IF ~f.ok THEN Fail
          ELSE LET r == ChoiceRest(t, f.p, <<f.v>>)
                   e == IF Is(t, r.p, ",") THEN SkipBlanks(t, r.p + 1) ELSE r.p
               IN IF Is(t, e, "]") THEN Got(e + 1, [k |-> "choice", items |-> r.v]) ELSE Fail

Calc(t) ==
  IF ~(IsCI(t, 1, "c") /\ Is(t, 2, "(")) THEN Fail
  ELSE LET e == Sum(t, 3, "int")
       IN IF e.ok /\ Is(t, e.p, ")") THEN Got(e.p + 1, [k |-> "calc", e |-> e.v]) ELSE Fail

Whole(t, f) == IF f.ok /\ f.p = Len(t) + 1 THEN f ELSE Fail

\* A calculation and a choice may be followed by any text (that begins with a
\* character), a roll by none.
Open(t, f) == f.ok /\ At(t, f.p) # "BAD"
Parse(t) ==
  LET c == Choice(t)
  IN IF Open(t, c) THEN c
     ELSE LET k == Calc(t)
          IN IF Open(t, k) THEN k ELSE Whole(t, RollCommand(t))

---------------------------------------------------------------------------
(* Submission: the secret mark, then the whole text or else its first part *)

IsSecretText(t) == At(t, 1) \in {"S", "s"}
Unmarked(t) == IF IsSecretText(t) THEN SubSeq(t, 2, Len(t)) ELSE t

ParseInput(t) ==
  LET u == Unmarked(t)
      w == Parse(u)
  IN IF w.ok THEN w ELSE Parse(FirstPart(u))

---------------------------------------------------------------------------
(* The structure of a command written as an S-expression *)

RECURSIVE SExpOf(_)
SExpOf(e) ==
  CASE e.k = "int"  -> NStr(e.v)
    [] e.k = "nil"  -> "nil"
    [] e.k = "neg"  -> "(- " \o SExpOf(e.e) \o ")"
    [] e.k = "add"  -> "(+ " \o SExpOf(e.l) \o " " \o SExpOf(e.r) \o ")"
    [] e.k = "sub"  -> "(- " \o SExpOf(e.l) \o " " \o SExpOf(e.r) \o ")"
    [] e.k = "mul"  -> "(* " \o SExpOf(e.l) \o " " \o SExpOf(e.r) \o ")"
    [] e.k = "div"  -> "(/" \o e.m \o " " \o SExpOf(e.l) \o " " \o SExpOf(e.r) \o ")"
    [] e.k = "rand" -> "(RandomNumber " \o SExpOf(e.l) \o " " \o SExpOf(e.r) \o ")"
    [] e.k = "roll" -> "(" \o e.c \o "Roll " \o SExpOf(e.n) \o " " \o SExpOf(e.s) \o ")"

RollsSExp(rolls) == Join(MapSeq(rolls, SExpOf), " ")
RListSExp(c) == "(RRollList " \o SExpOf(c.th) \o " " \o RollsSExp(c.rolls) \o ")"
UExprSExp(c) ==
  IF c.mod.k = "nil" THEN "(URollExpr " \o RListSExp(c) \o ")"
  ELSE "(URollExpr (" \o c.mod.op \o " " \o RListSExp(c) \o " " \o SExpOf(c.mod.e) \o "))"

Quoted(item) == "\"" \o Cat([i \in 1 .. Len(item) |->
                   IF item[i] = "\"" THEN "\\\"" ELSE IF item[i] = "\\" THEN "\\\\" ELSE item[i]])
                \o "\""

CommandSExp(c) ==
  CASE c.k = "calc"   -> "(Calc " \o SExpOf(c.e) \o ")"
    [] c.k = "choice" -> "(Choice " \o Join(MapSeq(c.items, Quoted), " ") \o ")"
    [] c.k = "dexpr"  -> "(DRollExpr " \o SExpOf(c.e) \o ")"
    [] c.k = "dcomp"  -> "(DRollComp (" \o c.op \o " " \o SExpOf(c.e) \o " " \o SExpOf(c.t) \o "))"
    [] c.k = "blist"  -> "(BRollList " \o RollsSExp(c.rolls) \o ")"
    [] c.k = "bcomp"  -> "(BRollComp (" \o c.op \o " (BRollList " \o RollsSExp(c.rolls) \o ") "
                         \o SExpOf(c.t) \o "))"
    [] c.k = "rlist"  -> RListSExp(c)
    [] c.k = "rcomp"  -> "(RRollComp (" \o c.op \o " " \o RListSExp(c) \o " " \o SExpOf(c.t) \o "))"
    [] c.k = "uexpr"  -> UExprSExp(c)
    [] c.k = "ucomp"  -> "(URollComp (" \o c.op \o " " \o UExprSExp(c) \o " " \o SExpOf(c.t) \o "))"
=============================================================================
