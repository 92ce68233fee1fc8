------------------------------ MODULE MCCommands ------------------------------
(* The command machine over systematically built texts.  The environment says
   for which property (PROP), how large (TIER) and which slice (VERIF_SEED).  *)
EXTENDS Machine, Json, IOUtils

Thorough == IOEnv.TIER = "thorough"
Slicing == atoi(IOEnv.SLICE)      \* take one of this many slices
Which == atoi(IOEnv.SEED)

---------------------------------------------------------------------------
(* sets of strings *)


Opt(A) == A \cup {""}

Slice(S) == IF Slicing <= 1 THEN S
            ELSE LET q == SetToSeq(S)
                 IN {q[i] : i \in {j \in 1 .. Len(q) : (j * 7919) % Slicing = Which % Slicing}}

Cmps == {"=", "<>", "<", "<=", ">", ">="}
InfixOps == {"+", "-", "*", "/", "/R", "/U"}

\* a op b with the rounding mark behind the divisor
Bin(a, op, b) == IF Len(op) = 2 THEN a \o "/" \o b \o SubSeq(op, 2, 2) ELSE a \o op \o b
Bins(As, Bs) == {Bin(a, op, b) : a \in As, op \in InfixOps, b \in Bs}
Parens(S) == {"(" \o s \o ")" : s \in S}
Negs(S) == {"-" \o s : s \in S}
Sized(lo, hi) == {ToString(i) : i \in lo .. hi}

\* all expressions of two levels over distinct small numbers
Leaves(a) == {a, "-" \o a}
Level1(a, b) == {a} \cup Bins({a}, {b}) \cup Bins({"-" \o a}, {b}) \cup Bins({a}, {"(-" \o b \o ")"})
Level1P(a, b) == LET e == Level1(a, b) IN Parens(e) \cup {"-(" \o s \o ")" : s \in e} \cup Leaves(a)

---------------------------------------------------------------------------
(* texts per property *)

T02(u) ==
  LET n == IF Thorough THEN 12 ELSE 7
      Nums == Sized(0, n) \cup Parens(Negs(Sized(1, n)))
      Edge == {"9", "10", "9999", "10000", "2147483647", "2147483648", "4294967296",
               "9007199254740991", "9007199254740993", "4611686018427387904",
               "9223372036854775807", "(-9223372036854775807)", "(-9223372036854775807-1)", "(-10001)", "(-9007199254740993)"}
      Three == {"2", "(-3)", "7"}
  IN {"C(" \o s \o ")" : s \in Bins(Nums, Nums) \cup Slice(Bins(Edge, Edge))
        \cup Slice({Bin(Bin(a, o, b), p, c) : a \in Three, b \in Three, c \in Three, o \in InfixOps, p \in InfixOps}
                   \cup {Bin(a, o, "(" \o Bin(b, p, c) \o ")") :
                          a \in Three, b \in Three, c \in Three, o \in InfixOps, p \in InfixOps})}
     \cup {"(" \o s \o ")B2" : s \in Slice(Bins({"7", "-7"}, {"2", "(-2)"}))}
     \cup {"1B2>=" \o s : s \in Slice(Bins({"7", "-7", "8"}, {"2", "-2", "0"}))}
     \cup {"1D2>=" \o s : s \in Slice(Bins({"7", "-7", "8"}, {"2", "-2", "0"}))}
     \cup {"1R2[" \o s \o "]" : s \in Slice(Bins({"7", "-7", "8"}, {"2", "-2", "0"}))}
     \cup {"1U2[3]+" \o s : s \in Slice(Bins({"7", "-7", "8"}, {"2", "-2", "0"}))}
     \cup Slice({Bin("1D2", o, s) : o \in InfixOps, s \in {"2", "-2", "(-3)", "0"}})

T03(u) ==
  LET E1 == Level1P("2", "3")
      E2 == Level1P("5", "7")
      R1 == Level1P("1D2", "3")
      R2 == Level1P("2", "1D1")
      Two == Bins(E1, E2)
      Deep == Bins(Parens(Bins(E1, {"5"})), {"11"} \cup Negs({"11"})) \cup Bins({"11"} \cup Negs({"11"}), Parens(Bins({"5"}, E2)))
  IN {"C(" \o s \o ")" : s \in Slice(Two \cup Deep \cup Negs(Parens(Two)))}
     \cup {"CHOICE[" \o a \o "," \o b \o c \o "]" : a \in {"a", " ", "　a\t"}, b \in {"", "b", "\t", " \r", "　", "b "}, c \in {"", ",", ",\f", ",c", ", "}}
     \cup Slice({s \o ">=3" : s \in Bins(R1, E2)})
     \cup Slice(Bins(R1, E2) \cup Bins(E2, R1) \cup Bins(E1, R2))

SumTerms == {"1D2", "2D2", "3", "-1D2", "(1D2+1)", "(1D2-2)", "(2-1D2)", "-(1D2-1)"}
T05(u) ==
  Slice(Bins(SumTerms, SumTerms) \cup Bins(Parens(Bins({"1D2", "2D3"}, {"2", "1D2"})), {"2", "-1D2", "1D3"})
        \cup Bins({"2", "1D3"}, Parens(Bins({"7", "2D2"}, {"2", "1D2"}))))
  \cup {"1D6", "3D3", "2D2+2D2-2D2", "10/3D2", "(1D2)*(1D2)", "1D2*1D2*1D2", "(2*1)D(1+2)", "2D(4/2)+1",
        "-2D2", "+1D2", "--1D2", "((2D2))", "5-1D3-1D2", "100/(1D2*7)R", "1D1", "0+1D2", "1D2/0", "1D2/(1D2-1)", "0D2", "1D0"}

Tops == {"1D3", "1D2-2", "2D2*-1", "1D3/2", "(1D2-1)*5", "-1D3"}
Targets == {"0", "1", "2", "3", "-1", "-2", "(1-2)", "7/3", "7/3R", "7/3U", "-(4)", "2*1-3"}
T06(u) == Slice({a \o c \o t : a \in Tops, c \in Cmps, t \in Targets})
       \cup {"1D2" \o c \o "1/0" : c \in {"=", ">"}} \cup {"1D2=>1", "1D2==1", "1D2>=", "1D2!=1", "1D2", "2B2>=2", "1U2[3]>=1"}

T07(u) ==
  Slice({r \o c \o t : r \in {"2B3", "1B2+1B3", "1B3+2B2", "3B2"}, c \in Cmps, t \in Sized(0, 4) \cup {"-1", "(1+1)", "5/2R"}})
  \cup {"2B3", "1B2+2B3", "2B2+1B3+1B2", "(1+1)B(4/2)", "1B1", "1b2+1B2", "0B2", "2B0", "1B2>=1/0", "1B2+3", "1B2+1D2", "1B2+0B2"}

T08(u) ==
  Slice({r \o th : r \in {"1R2", "2R2", "1R3", "1R2+1R3", "2R3"}, th \in {"[2]", "[3]", "[1]", "", "[(5/2)]", "[-2]"}}
        \cup {r \o th \o c \o t : r \in {"1R3", "1R2+1R3", "2R2"}, th \in {"", "[3]", "[2]"}, c \in Cmps,
                                  t \in {"1", "2", "3", "(5-3)", "-1", "5"}})
  \cup {"[1...2]R3[1]", "[1...2]R2", "(1+1)R2[2]", "2R(1+1)[2]>=1+1", "1R2[1/0]", "0R2[2]", "1R0[2]", "1R2[2]+1", "2R2[2]+1R2[2]",
        "1R2[2]>=1/0", "1R2+0R2[2]",
        \* as many groups as the limit from the start, and more
        "1R2+1R2+1R2[2]", "1R2+1R1+1R2+1R2[2]", "1R2+1R2+1R2+1R2+1R2>=2", "1R1+2R1+1R1+1R1[2]"}

T09(u) ==
  Slice({r \o th \o m : r \in {"1U2", "2U2", "1U2+1U3", "2U3"}, th \in {"[2]", "[3]", "[1]", ""},
                        m \in {"", "+1", "-1", "+1-2", "-1+2*3", "-(1-3)", "+0"}}
        \cup {r \o th \o m \o c \o t : r \in {"1U2", "2U2", "1U3+1U2"}, th \in {"[2]", "[3]", ""}, m \in {"", "+1", "-2"},
                                       c \in Cmps, t \in {"1", "2", "3", "-1", "(2+2)"}})
  \cup {"[1...2]U3[1]", "(1+1)U2[2]", "1U2[2]+1/0", "1U2[1/0]", "0U2[2]", "1U0[2]", "1U2[2]>=1/0", "1U2[2]+1U2", "1U2[3]+7/2R-7/2U"}

Blanks == {"", " ", "\t", "　"}
T10(u) ==
  {"CHOICE[" \o Join([i \in 1 .. n |-> "i" \o ToString(i)], ",") \o "]" : n \in 1 .. (IF Thorough THEN 40 ELSE 12)}
  \cup Slice({"choice[" \o p \o i \o q \o "," \o r \o "b" \o s \o "]" :
                i \in {"a", "剣 士", "(x)", "1D6", "[", "\"", "\\"}, p \in Blanks, q \in Blanks, r \in Blanks, s \in Blanks})
  \cup {"CHOICE[a,]", "CHOICE[a, ]", "CHOICE[a,,b]", "CHOICE[]", "CHOICE[,a]", "CHOICE[ ]", "CHOICE[a", "CHOICE[a,b]c", "CHOICE[a,b,　]",
        "CHOICEa,b]", "CHOICE [a,b]", "cHOIce[A,a]", "CHOICE[a,a]", "CHOICE[a,\t]", "CHOICE[a, \n ,b]", "CHOICE[\t,a]", "CHOICE[a\n,\tb]", "CHOICE[a,b", "CHOICE[a;b]", "CHOICE[x]y]"}

Ranges == {"[1...2]", "[0...2]", "[(-1)...1]", "[2...(1+2)]", "[(0-3)...(-2)]"}
T11(u) ==
  Slice({Bin(a, o, b) : a \in Ranges, b \in {"1D2", "3", "[1...3]", "(1D2+[1...2])"}, o \in InfixOps}
        \cup {Bin(b, o, a) : a \in Ranges, b \in {"1D2", "3"}, o \in InfixOps}
        \cup {a \o l \o b : a \in {"[1...2]", "([1...2]+1)", "1"}, b \in {"[2...3]", "([1...2]*2)", "2"}, l \in {"D", "B"}})
  \cup {"[1...2]R[2...3][3]", "[1...2]U[2...3][3]+1", "1D[2...3]+[1...2]D2", "[1...2]D2>=2", "[1...2]>=2", "[1...2]B2+[1...2]B2>=2",
        "[1...2]R2+1R[2...3]>=3", "[2...1]D2", "[1...1]", "[3...2]", "-[1...2]", "([1...2])", "2*[1...3]-[1...2]", "[1...[1...2]]",
        "[1..2]", "[1...2", "C([1...2])", "1D2>=[1...2]", "[1...2]+[2...1]", "[1...3]D0", "[1...2]R2", "[1...2]R2[1]", "[1...2]U2"}

Bases == {"2D2+1", "C(1+2)", "CHOICE[a,b]", "1B2>=2", "1R2[2]", "1U2[3]+1", "1D2>=2", "[1...2]D2", "S1D2", "x", "1D2/0", "2D"}
T12(u) == {m \o b \o t : m \in {"", "S", "s", "SS"}, b \in Bases,
                      t \in {"", " x", "\t1D2", " ", "x", "+1", " +1"}}

T13(u) == {"2D2", "1D2*[1...2]", "1D2+1D0", "1B2+1B2", "2B2+0B3", "1R2+1R2[2]", "1R2[2]>=2", "1U2+1U2[2]", "2U2[2]", "CHOICE[a,b]",
        "10/(1D2-1)", "1D2/0", "[2...1]", "[1...2]D(1-1)", "C(1/0)", "", "S", "s ", " 1D2", "1D2 1D2", "1D", "C()", "((((1D2))))",
        "1D2>=1/0", "1B2>=(1/0)", "1R2[1]", "1R2", "1U2", "1U2[0]", "[1...2]R2", "[1...2]U2[1]", "[1...2]R0[2]", "0U0[2]", "(1-2)D2", "1D2+"}

T04(u) == T13(u) \cup {"3D2", "1D2+2D3", "2B2+1B3", "C(1)", "1R2[2]", "1U2[2]", "[1...2]D[1...2]", "([1...2]+1)B2", "1R2+1R3[3]",
                 "1U3+1U2[2]", "CHOICE[a,b,c]", "2D2>=3", "1B2>=2", "1R2>=2", "1U2>=2", "10/(1D2-1)+1D2"}

(* the sets are operators of a dummy argument so that only one of them is built *)
Strings(u) == CASE IOEnv.PROP = "P02" -> T02(1)
             [] IOEnv.PROP = "P03" -> T03(1)
             [] IOEnv.PROP = "P04" -> T04(1)
             [] IOEnv.PROP = "P05" -> T05(1)
             [] IOEnv.PROP = "P06" -> T06(1)
             [] IOEnv.PROP = "P07" -> T07(1)
             [] IOEnv.PROP = "P08" -> T08(1)
             [] IOEnv.PROP = "P09" -> T09(1)
             [] IOEnv.PROP = "P10" -> T10(1)
             [] IOEnv.PROP = "P11" -> T11(1)
             [] IOEnv.PROP = "P12" -> T12(1)
             [] IOEnv.PROP = "P13" -> T13(1)

NoTexts == {}

\* the texts, chosen in the initial state
CInit == /\ pc = "idle" /\ text = <<>> /\ D = <<>> /\ cmd = NilN /\ res = Idle
CNext == \/ \E s \in Strings(1) : Submit(Chars(s))
         \/ Draw \/ Complete \/ Abort \/ Overflow

\* what an ended behaviour looks like from outside; replayed on the real code
Export == Ended_ => PrintT("CASE " \o ToJson([t |-> text, D |-> D, x |-> Expected(text, "DiceBot", D)]))
=============================================================================
