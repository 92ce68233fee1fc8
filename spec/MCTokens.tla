------------------------------- MODULE MCTokens -------------------------------
(* Which texts are commands, for every string of tokens up to a length.

   Each state is a string over one of the alphabets.  Those that are commands
   are printed with their structure; every other string of the same alphabet
   and length is not a command.  The environment gives the alphabets (TOKENS,
   from .. to) and the length (LEN).                                          *)
EXTENDS Deep, Json, IOUtils

VARIABLES a, q, t     \* alphabet, its tokens taken, the text they make
vars == <<a, q, t>>

Alphabets == <<
  \* 1: sum rolls
  <<"2", "D", "+", "-", "*", "/", "(", ")", "R">>,
  \* 2: sum rolls with comparison
  <<"1D6", "2", "<", ">", "=", "+", "-", "(", ")">>,
  \* 3: basic rolls
  <<"2", "b", "B3", "+", "=", "-", "(", ")", " ">>,
  \* 4: exploding rolls
  <<"2R6", "2", "r", "[", "]", "+", ">=", "(", ")">>,
  \* 5: compounding rolls
  <<"2U6", "3", "u", "[", "]", "+", "-", "*", ">">>,
  \* 6: calculations
  <<"c", "C(", "7", "+", "-", "/", "U", "(", ")">>,
  \* 7: choices
  <<"CHOICE", "[", "a", "b", ",", " ", "　", "]", "choice[", "\t">>,
  \* 8: ranges
  <<"[", "]", "...", "..", "1", "d", "(", ")", "-">>,
  \* 9: whole ranges as operands
  <<"[1...2]", "D", "b", "R", "U", "2", "+", "(", ")", "[3]">>,
  \* 10: all forms beside each other
  <<"1D6", "2B6", "3R6", "4U6", "[3]", "+", "-1", ">=", "2", "*">>,
  \* 11: integers and their signs
  <<"0", "01", "10", "-", "+", "1D", "D", "/", "r">>,
  \* 12: what is not part of the notation
  <<"1D6", "S", "x", " ", "剣", "#", "!", "１", "1.5", "=">>,
  \* 13 .. 18: notations of other dice bots and programming languages
  <<"1D6", "2", "@", "%", "!", "=", "^", "?", "_", ".">>,
  <<"2R6", "2U6", "@", "2", "[2]", ">", "{", "}", "&", "|">>,
  <<"C", "C(", "1", ")", "[", "]", " ", "0x", "e", ";">>,
  <<"choice(", "choice[", "a", ")", "]", "|", ";", " ", "\n", "b">>,
  <<"D", "66", "1", "%", "Ｄ", "d", "6", "×", "−", "+">>,
  <<"s", "S", "C(1)", "1d6", " ", "　", "choice[a]", "0", "(", "x">>,
  \* 19: rolls of different kinds beside each other
  <<"1B6", "1D6", "1R6", "1U6", "+", "[3]", "C(2)", "=", "1", ",">>,
  \* 20: what may look like a comparison
  <<"1D6", "<", "<=", "=<", ">", "=>", "<>", "==", "!=", "3">>
>>

From == atoi(IOEnv.FROM)
To == atoi(IOEnv.TO)
K == atoi(IOEnv.LEN)

Init == a \in From .. To /\ q = <<>> /\ t = <<>>
Next == /\ Len(q) < K
        /\ \E j \in 1 .. Len(Alphabets[a]) : q' = Append(q, j) /\ t' = t \o Chars(Alphabets[a][j])
        /\ a' = a

Alphabet == q = <<>> =>
  /\ PrintT("ALPHABET " \o ToJson([a |-> a, tokens |-> Alphabets[a]]))
  /\ a = From => PrintT("DEEP " \o ToJson([wraps |-> Wraps, cores |-> Cores, inner |-> Inner, cuts |-> CutCores, runs |-> Runs]))

Accepted ==
  LET p == Parse(t)
  IN p.ok => PrintT("ACCEPT " \o ToJson([a |-> a, q |-> q,
                                         x |-> IF p.v.k = "choice" THEN "" ELSE CommandSExp(p.v),
                                         items |-> IF p.v.k = "choice" THEN p.v.items ELSE <<>>]))

\* the reading of deep texts from that of shallow ones
DeepLaw == (q = <<>> /\ a = From) => \A w \in 1 .. Len(Wraps) : \A c \in 1 .. Len(Cores) : \A n \in 0 .. 4 : Law(w, c, n) /\ CutLaw(w, c, n)
=============================================================================
