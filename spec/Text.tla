-------------------------------- MODULE Text --------------------------------
(* Input texts are sequences of one-character strings; replies are strings.
   "BAD" stands for a byte that is no part of a character; it occurs in no
   sentence of the notation.                                                 *)
EXTENDS Integers, Sequences, TLC

\* Unicode separators (category Z)
SeparatorChars ==
  {" ", " ", " ", " ", " ", " ", " ", " ", " ", " ", " ", " ", " ", " ", " ", " ", "　", " ", " "}

\* blanks in the sense of \s: what ends the first part of an input
AsciiBlanks == {" ", "\t", "\n", "\f", "\r"}

\* blanks that are removed around a choice item or a line
BlankChars == SeparatorChars \cup AsciiBlanks \cup {"", ""}

\* a string as a text
Chars(s) == [i \in 1 .. Len(s) |-> SubSeq(s, i, i)]

At(t, p) == IF p >= 1 /\ p <= Len(t) THEN t[p] ELSE ""

\* concatenation of a sequence of strings, by halves
RECURSIVE CatRange(_, _, _)
CatRange(q, i, j) ==
  IF i > j THEN ""
  ELSE IF i = j THEN q[i]
  ELSE LET m == (i + j) \div 2 IN CatRange(q, i, m) \o CatRange(q, m + 1, j)
Cat(q) == CatRange(q, 1, Len(q))

RECURSIVE JoinRange(_, _, _, _)
JoinRange(q, sep, i, j) ==
  IF i > j THEN ""
  ELSE IF i = j THEN q[i]
  ELSE LET m == (i + j) \div 2
       IN JoinRange(q, sep, i, m) \o sep \o JoinRange(q, sep, m + 1, j)
Join(q, sep) == JoinRange(q, sep, 1, Len(q))

MapSeq(q, F(_)) == [i \in 1 .. Len(q) |-> F(q[i])]

\* t without the blanks at both ends
RECURSIVE TrimL(_, _, _)
TrimL(t, i, j) == IF i <= j /\ t[i] \in BlankChars THEN TrimL(t, i + 1, j) ELSE i
RECURSIVE TrimR(_, _, _)
TrimR(t, i, j) == IF i <= j /\ t[j] \in BlankChars THEN TrimR(t, i, j - 1) ELSE j
TrimBlanks(t) ==
  LET i == TrimL(t, 1, Len(t))
      j == TrimR(t, i, Len(t))
  IN SubSeq(t, i, j)

\* the part of t before its first ASCII blank
RECURSIVE FirstBlank(_, _)
FirstBlank(t, i) == IF i > Len(t) \/ t[i] \in AsciiBlanks THEN i ELSE FirstBlank(t, i + 1)
FirstPart(t) == SubSeq(t, 1, FirstBlank(t, 1) - 1)

\* some characters that are shown as they are within quotation marks
PlainChars == LET s == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~剣魔法éー😀攻撃メモ世界の１Ｄあいう" IN {SubSeq(s, i, i) : i \in 1 .. Len(s)}
IsPlain(t) == \A i \in 1 .. Len(t) : t[i] \in PlainChars

LowerOf ==
  ("A" :> "a") @@ ("B" :> "b") @@ ("C" :> "c") @@ ("D" :> "d") @@ ("E" :> "e") @@
  ("F" :> "f") @@ ("G" :> "g") @@ ("H" :> "h") @@ ("I" :> "i") @@ ("J" :> "j") @@
  ("K" :> "k") @@ ("L" :> "l") @@ ("M" :> "m") @@ ("N" :> "n") @@ ("O" :> "o") @@
  ("P" :> "p") @@ ("Q" :> "q") @@ ("R" :> "r") @@ ("S" :> "s") @@ ("T" :> "t") @@
  ("U" :> "u") @@ ("V" :> "v") @@ ("W" :> "w") @@ ("X" :> "x") @@ ("Y" :> "y") @@
  ("Z" :> "z")
Lower(c) == IF c \in DOMAIN LowerOf THEN LowerOf[c] ELSE c
=============================================================================
