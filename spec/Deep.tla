-------------------------------- MODULE Deep --------------------------------
(* Texts of any depth: nesting by one level changes the structure in one way,
   whatever the depth.  Law is checked for small depths; what the real code
   makes of deep texts is compared with what follows from it.                *)
EXTENDS Syntax

\* a level of nesting: text before and after; in the S-expression, before and after
Wraps == <<
  [o |-> "(",     c |-> ")",     a |-> "",         b |-> ""],
  [o |-> "-(",    c |-> ")",     a |-> "(- ",      b |-> ")"],
  [o |-> "+(",    c |-> ")",     a |-> "",         b |-> ""],
  [o |-> "1+(",   c |-> ")",     a |-> "(+ 1 ",    b |-> ")"],
  [o |-> "(",     c |-> ")-2",   a |-> "(- ",      b |-> " 2)"],
  [o |-> "2*(",   c |-> ")",     a |-> "(* 2 ",    b |-> ")"],
  [o |-> "1/(",   c |-> ")",     a |-> "(/ 1 ",    b |-> ")"],
  [o |-> "1/(",   c |-> ")r",    a |-> "(/R 1 ",   b |-> ")"],
  [o |-> "(",     c |-> "/2U)",  a |-> "(/U ",     b |-> " 2)"],
  [o |-> "(1*",   c |-> "*3)",   a |-> "(* (* 1 ", b |-> ") 3)"],
  [o |-> "-",     c |-> "",      a |-> "(- ",      b |-> ")"],
  [o |-> "",      c |-> "+1",    a |-> "(+ ",      b |-> " 1)"],
  [o |-> "",      c |-> "/1R",   a |-> "(/R ",     b |-> " 1)"]
>>

\* where it is nested: text around it; in the S-expression, around it; and the
\* innermost expressions admitted there
Cores == <<
  [o |-> "C(",       c |-> ")",          a |-> "(Calc ",                                b |-> ")", e |-> 1],
  [o |-> "2D6>=",    c |-> "",           a |-> "(DRollComp (>= (DRoll 2 6) ",           b |-> "))", e |-> 1],
  [o |-> "2B6<",     c |-> "",           a |-> "(BRollComp (< (BRollList (BRoll 2 6)) ", b |-> "))", e |-> 1],
  [o |-> "2R6[",     c |-> "]",          a |-> "(RRollList ",                           b |-> " (RRoll 2 6))", e |-> 1],
  [o |-> "2U6[",     c |-> "]+1",        a |-> "(URollExpr (+ (RRollList ",             b |-> " (URoll 2 6)) 1))", e |-> 1],
  [o |-> "(",        c |-> ")D6",        a |-> "(DRollExpr (DRoll ",                    b |-> " 6))", e |-> 2],
  [o |-> "1B(",      c |-> ")",          a |-> "(BRollList (BRoll 1 ",                  b |-> "))", e |-> 2],
  [o |-> "[(",       c |-> ")...99]D6",  a |-> "(DRollExpr (DRoll (RandomNumber ",      b |-> " 99) 6))", e |-> 1],
  [o |-> "1D6+(",    c |-> ")",          a |-> "(DRollExpr (+ (DRoll 1 6) ",            b |-> "))", e |-> 3]
>>
Inner == << <<"7", "7">>, <<"[1...3]", "(RandomNumber 1 3)">>, <<"2d6", "(DRoll 2 6)">> >>

\* n copies of s, by halves
RECURSIVE Rep(_, _)
Rep(s, n) == IF n = 0 THEN "" ELSE IF n = 1 THEN s
             ELSE LET h == Rep(s, n \div 2) IN IF n % 2 = 0 THEN h \o h ELSE h \o h \o s

DeepText(w, c, n) == Cores[c].o \o Rep(Wraps[w].o, n) \o Inner[Cores[c].e][1] \o Rep(Wraps[w].c, n) \o Cores[c].c
DeepSExp(w, c, n) == Cores[c].a \o Rep(Wraps[w].a, n) \o Inner[Cores[c].e][2] \o Rep(Wraps[w].b, n) \o Cores[c].b

Law(w, c, n) ==
  LET p == Parse(Chars(DeepText(w, c, n)))
  IN IF p.ok /\ CommandSExp(p.v) = DeepSExp(w, c, n) THEN TRUE
     ELSE PrintT(<<"LAW", w, c, n, DeepText(w, c, n), IF p.ok THEN CommandSExp(p.v) ELSE "refused", DeepSExp(w, c, n)>>) /\ FALSE

\* the text without its last character, in places where that is no command
Cut(t) == SubSeq(t, 1, Len(t) - 1)
CutCores == {1, 6}
CutLaw(w, c, n) == c \in CutCores => ~Parse(Chars(Cut(DeepText(w, c, n)))).ok

\* texts that are answered with a reply when all dice show 1, whatever the depth
Runs == {<<w, c>> \in (1 .. Len(Wraps)) \X {1, 2, 3, 4, 5, 9} : w \notin {7, 8}}

\* a recorded reading of a deep text, and what came of executing it
DeepAgrees(ev) == IF ev.cut THEN ev.out = "error" /\ ev.run # "reply"
                  ELSE /\ ev.out = "tree" /\ ev.x = DeepSExp(ev.w, ev.c, ev.n)
                       /\ <<ev.w, ev.c>> \in Runs => ev.run = "reply"
=============================================================================
