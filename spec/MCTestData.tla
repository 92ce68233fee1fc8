------------------------------ MODULE MCTestData ------------------------------
(* Reading test data: what was written is what is read, for all cases of small
   pieces; and which texts are test data at all, for all strings of tokens.    *)
EXTENDS TestData, Json, IOUtils

VARIABLES w, q, t
vars == <<w, q, t>>

K == atoi(IOEnv.LEN)

Alphabets ==
  \* dice
  [dice |-> <<"1", "06", "/", ",", " ", "\t", "-", "x", "9223372036854775808", "9223372036854775807">>,
  \* one case
   case |-> <<"input:\n", "input:", "\noutput:", "output:", "\nrand:", "\n", "a", "1/6", ",2/6">>,
  \* a file
   file |-> <<"input:\na\noutput:b\nrand:", "input:\na\noutput:\nb\nrand:1/6", "\n", "\n" \o Divider \o "\n", Divider, "3/4", "=", " ">>]
Kinds == DOMAIN Alphabets

Init == \/ w \in Kinds /\ q = <<>> /\ t = <<>>
        \/ w = "pieces" /\ q = <<>> /\ t = <<>>
Next == /\ w \in Kinds
        /\ Len(q) < K
        /\ \E j \in 1 .. Len(Alphabets[w]) : q' = Append(q, j) /\ t' = t \o Chars(Alphabets[w][j])
        /\ w' = w

Game == "G"
Reading == CASE w = "dice" -> ReadDice(t)
             [] w = "case" -> ReadCase(t, Game, 7)
             [] w = "file" -> ReadFile(t, Game)

Alphabet == (q = <<>> /\ w \in Kinds) => PrintT("ALPHABET " \o ToJson([w |-> w, tokens |-> Alphabets[w]]))
Accepted == w \in Kinds => (Reading.out = "error" \/ PrintT("ACCEPT " \o ToJson([w |-> w, q |-> q, x |-> Reading])))

Inputs == {<<"a">>, <<"2d6", "x">>, <<"", "a">>, <<"a", "">>, <<"a", "", "b">>, <<"rand">>, <<" input:">>, <<"剣 ", "output">>, <<"input:">>}
Outputs == {"", "a", "a\nb", "a\n", "a\n\nb", "rand", "input:\nx", "x output:", "\ta", "＞\n成功"}
DiceLists == {<<>>, <<<<N(1), N(6)>>>>, <<<<N(1), N(6)>>, <<N(20), N(100)>>>>, <<<<N(0), N(0)>>, <<MaxI64, MaxI64>>, <<N(3), N(3)>>>>}
Pieces == {[game |-> Game, index |-> 7, input |-> i, output |-> o, dice |-> d] : i \in Inputs, o \in Outputs, d \in DiceLists}

\* reading gives back what was written
RoundTrip == w = "pieces" =>
  /\ \A ds \in DiceLists : \A sep \in {",", ", ", " ,\t"} :
       ReadDice(Chars(WriteDice(ds, sep))) = [out |-> "ok", dice |-> ds]
  /\ \A c \in Pieces : \A gap \in 0 .. 1 :
       ReadCase(Chars(WriteCase(c, gap, IF gap = 0 THEN "," ELSE ", ")), Game, 7) = [out |-> "ok", cases |-> <<c>>]
  /\ \A c \in {p \in Pieces : p.input = <<"a">>} : \A d \in {p \in Pieces : p.output = "a" /\ Len(p.dice) < 2} :
       \A e \in {"", "\n", "\n\n"} :
         LET f == Chars(WriteCase(c, 1, ",") \o "\n" \o Divider \o "\n" \o WriteCase(d, 0, ", ") \o e)
             a == [c EXCEPT !.index = 1]
             b == [d EXCEPT !.index = 2]
         IN /\ ReadFile(f, Game) = [out |-> "ok", cases |-> <<a, b>>]
            /\ ReadFiles(<<f, f>>, <<TRUE, TRUE>>, Game)
                 = [out |-> "ok", cases |-> <<a, b, [a EXCEPT !.index = 3], [b EXCEPT !.index = 4]>>]
=============================================================================
