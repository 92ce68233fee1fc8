------------------------------- MODULE MCTyped -------------------------------
(* Commands as typed, written again with as few parentheses as possible.

   Every small expression is put, fully parenthesised, into every place of a
   command where one may stand.  Such a text must be read as just that
   expression, and what is written for it must read back as the same command.
   The texts and what is written for them are replayed on the real code.      *)
EXTENDS TraceExec, Json, IOUtils

VARIABLES ctx, e
vars == <<ctx, e>>

One == IntN(N(1))
Two == IntN(N(2))
Leaves == [int |-> {One, Two}, rand |-> {Two, RandN(One, Two)}, sum |-> {Two, RollN("D", One, IntN(N(6)))}]

\* where expressions stand: what is before and after
Places == <<
  [o |-> "C(", c |-> ")", m |-> "int"],
  [o |-> "1D6>=(", c |-> ")", m |-> "int"],
  [o |-> "1d6<>", c |-> "", m |-> "int"],
  [o |-> "(", c |-> ")b6", m |-> "rand"],
  [o |-> "1B6+2B(", c |-> ")>=3", m |-> "rand"],
  [o |-> "2B6=", c |-> "", m |-> "int"],
  [o |-> "(", c |-> ")R6+1R2[2]", m |-> "rand"],
  [o |-> "2r6[", c |-> "]", m |-> "int"],
  [o |-> "1R(", c |-> ")>1", m |-> "rand"],
  [o |-> "2R6[3]<=(", c |-> ")", m |-> "int"],
  [o |-> "(", c |-> ")U6[6]", m |-> "rand"],
  [o |-> "1U6+2U(", c |-> ")", m |-> "rand"],
  [o |-> "2u6[", c |-> "]-1", m |-> "int"],
  [o |-> "2U6[6]+(", c |-> ")", m |-> "int"],
  [o |-> "2U6[6]+", c |-> "", m |-> "int"],
  [o |-> "2U6-(", c |-> ")", m |-> "int"],
  [o |-> "2U6[6]-", c |-> "+1*2", m |-> "int"],
  [o |-> "2U6[6]+3-(", c |-> ")", m |-> "int"],
  [o |-> "2U6[6]+1<", c |-> "", m |-> "int"],
  [o |-> "[(", c |-> ")...9]", m |-> "int"],
  [o |-> "2*[0...(", c |-> ")]D6", m |-> "int"],
  [o |-> "(", c |-> ")D6", m |-> "rand"],
  [o |-> "2D(", c |-> ")+1", m |-> "rand"],
  [o |-> "", c |-> "", m |-> "sum"],
  [o |-> "1D6*(", c |-> ")", m |-> "sum"],
  [o |-> "-(", c |-> ")+1D6", m |-> "sum"],
  [o |-> "", c |-> ">=2", m |-> "sum"],
  [o |-> "1D6-(", c |-> ")=1", m |-> "sum"] >>

Bigger(s) == {NegN(x) : x \in s}
             \cup {AddN(x, y) : x \in s, y \in s} \cup {SubN(x, y) : x \in s, y \in s} \cup {MulN(x, y) : x \in s, y \in s}
             \cup {DivN("", x, y) : x \in s, y \in s} \cup {DivN("U", x, y) : x \in s, y \in s}

SmallTrees(m) == LET l == Leaves[m] IN l \cup Bigger(l)
Trees(m) == LET s == SmallTrees(m) IN s \cup Bigger(s)

RECURSIVE Full(_)
Full(x) ==
  CASE x.k = "int"  -> NStr(x.v)
    [] x.k = "roll" -> Full(x.n) \o x.c \o Full(x.s)
    [] x.k = "rand" -> "[" \o Full(x.l) \o "..." \o Full(x.r) \o "]"
    [] x.k = "neg"  -> "-(" \o Full(x.e) \o ")"
    [] OTHER -> "(" \o Full(x.l) \o ")" \o OpSign(x.k) \o "(" \o Full(x.r) \o ")" \o (IF x.k = "div" THEN x.m ELSE "")

Slices == atoi(IOEnv.SLICE)
Seed == atoi(IOEnv.SEED)
Kept(s) == IF Slices = 1 THEN s
           ELSE LET q == SetToSeq(s) IN {q[i] : i \in {j \in 1 .. Len(q) : j % Slices = Seed % Slices}}

Init == ctx \in 1 .. Len(Places) /\ e = NilN
Next == /\ e = NilN
        /\ e' \in SmallTrees(Places[ctx].m) \cup Kept(Trees(Places[ctx].m))
        /\ ctx' = ctx

Txt == Chars(Places[ctx].o \o Full(e) \o Places[ctx].c)

\* in these places the expression is the whole command
ReadAsWritten ==
  e # NilN =>
    LET p == Parse(Txt)
    IN /\ ctx = 1 => p.ok /\ p.v.e = e
       /\ Places[ctx].o = "" /\ Places[ctx].c = "" => IF p.ok THEN p.v.e = e ELSE ~HasRoll(e)
       /\ Places[ctx].m # "sum" => p.ok

BackAndMinimal ==
  e # NilN => LET p == Parse(Txt)
              IN p.ok => TypedReadsBack(p.v) /\ TypedMinimal(p.v)

Export == e # NilN => PrintT("CASE " \o ToJson([t |-> Txt, x |-> ExpectedTyped(Txt)]))
=============================================================================
