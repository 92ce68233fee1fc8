------------------------------- MODULE TestData -------------------------------
(* Test data: cases of input lines, an output text and a list of dice; files of
   such cases; lists of files.  Texts are sequences of characters.

   Reading gives [out |-> "ok", ...], [out |-> "error"] or, for texts whose
   meaning is not laid down, [out |-> "any"].                                  *)
EXTENDS Num, Text, SequencesExt, FiniteSets

NL == "\n"
Err == [out |-> "error"]
Open == [out |-> "any"]

---------------------------------------------------------------------------
(* Splitting and joining *)

\* the parts of t between characters c
Split(t, c) ==
  LET cuts == SelectSeq([i \in 1 .. Len(t) |-> i], LAMBDA i : t[i] = c)
      from(i) == IF i = 1 THEN 1 ELSE cuts[i - 1] + 1
      to(i) == IF i = Len(cuts) + 1 THEN Len(t) ELSE cuts[i] - 1
  IN [i \in 1 .. Len(cuts) + 1 |-> SubSeq(t, from(i), to(i))]

\* the lines ls from i to j as one text
RECURSIVE Unsplit(_, _, _)
Unsplit(ls, i, j) == IF i > j THEN <<>> ELSE IF i = j THEN ls[i] ELSE ls[i] \o <<NL>> \o Unsplit(ls, i + 1, j)

Begins(l, s) == LET w == Chars(s) IN Len(l) >= Len(w) /\ SubSeq(l, 1, Len(w)) = w
After(l, s) == SubSeq(l, Len(s) + 1, Len(l))

RECURSIVE DropL(_, _)
DropL(t, cs) == IF t # <<>> /\ Head(t) \in cs THEN DropL(Tail(t), cs) ELSE t
RECURSIVE DropR(_, _)
DropR(t, cs) == IF t # <<>> /\ t[Len(t)] \in cs THEN DropR(SubSeq(t, 1, Len(t) - 1), cs) ELSE t

---------------------------------------------------------------------------
(* Dice *)

AllDigits(t) == t # <<>> /\ \A i \in 1 .. Len(t) : t[i] \in DigitChars
IntOf(t) == NOfDigits(t, 1, Len(t))

\* value/faces, with blanks around it allowed: <<>> or <<<<v, s>>>>
ReadDie(t) ==
  LET p == Split(DropR(DropL(t, AsciiBlanks), AsciiBlanks), "/")
  IN IF Len(p) = 2 /\ AllDigits(p[1]) /\ AllDigits(p[2]) /\ InI64(IntOf(p[1])) /\ InI64(IntOf(p[2]))
     THEN <<<<IntOf(p[1]), IntOf(p[2])>>>>
     ELSE <<>>

ReadDice(t) ==
  IF t = <<>> THEN [out |-> "ok", dice |-> <<>>]
  ELSE IF \A i \in 1 .. Len(t) : t[i] \in AsciiBlanks THEN Open
  ELSE LET r == MapSeq(Split(t, ","), ReadDie)
       IN IF \E i \in 1 .. Len(r) : r[i] = <<>> THEN Err
          ELSE [out |-> "ok", dice |-> [i \in 1 .. Len(r) |-> r[i][1]]]

DieText(d) == NStr(d[1]) \o "/" \o NStr(d[2])
WriteDice(ds, sep) == Join(MapSeq(ds, DieText), sep)

---------------------------------------------------------------------------
(* A case *)

\* Which line ends the input, and which has the dice?  Of several lines that
\* begin with rand: the last is the one; with several that begin with output:
\* it is not laid down.
ReadCase(t, game, index) ==
  LET ls == Split(t, NL)
      O == {i \in 2 .. Len(ls) : Begins(ls[i], "output:")}
      R == {i \in 2 .. Len(ls) : Begins(ls[i], "rand:")}
      o == CHOOSE i \in O : TRUE
      r == CHOOSE i \in R : \A j \in R : j <= i
      input == SubSeq(ls, 2, o - 1)
      dice == ReadDice(After(Unsplit(ls, r, Len(ls)), "rand:"))
      output == DropL(After(Unsplit(ls, o, r - 1), "output:"), {NL})
  IN IF ls[1] # Chars("input:") \/ O = {} \/ R = {} THEN Err
     ELSE IF Cardinality(O) > 1 THEN Open
     ELSE IF r < o \/ o = 2 \/ input = <<<<>>>> \/ dice.out = "error" THEN Err
     ELSE IF dice.out = "any" THEN Open
     ELSE [out |-> "ok", cases |-> <<[game |-> game, index |-> index, input |-> MapSeq(input, Cat),
                                      output |-> Cat(output), dice |-> dice.dice]>>]

\* the text of a case; gap: line breaks between the output mark and the output
WriteCase(c, gap, sep) ==
  "input:" \o NL \o Join(c.input, NL) \o NL \o "output:" \o Cat([i \in 1 .. gap |-> NL]) \o c.output
  \o NL \o "rand:" \o WriteDice(c.dice, sep)

---------------------------------------------------------------------------
(* Files *)

Divider == "============================"

\* the texts between the divider lines
RECURSIVE Sections(_, _, _)
Sections(ls, i, from) ==
  IF i > Len(ls) THEN <<Unsplit(ls, from, Len(ls))>>
  ELSE IF ls[i] = Chars(Divider) /\ i > from /\ i < Len(ls)
       THEN <<Unsplit(ls, from, i - 1)>> \o Sections(ls, i + 1, i + 1)
       ELSE Sections(ls, i + 1, from)

\* readings of parts put together: all of them have to be good
Together(rs) ==
  IF \E i \in 1 .. Len(rs) : rs[i].out = "error" THEN Err
  ELSE IF \E i \in 1 .. Len(rs) : rs[i].out = "any" THEN Open
  ELSE [out |-> "ok", cases |-> FlattenSeq([i \in 1 .. Len(rs) |-> rs[i].cases])]

ReadFile(t, game) ==
  LET ss == Sections(Split(DropR(t, {NL}), NL), 1, 1)
  IN Together([i \in 1 .. Len(ss) |-> ReadCase(ss[i], game, i)])

\* several files: the numbers go on.  A file that is not there is the number 0
\* instead of a text.
ReadFiles(fs, there, game) ==
  LET r == Together([i \in 1 .. Len(fs) |-> IF there[i] THEN ReadFile(fs[i], game) ELSE Err])
  IN IF r.out # "ok" THEN r
     ELSE [r EXCEPT !.cases = [i \in 1 .. Len(@) |-> [@[i] EXCEPT !.index = i]]]
=============================================================================
