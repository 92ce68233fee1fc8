------------------------------ MODULE MCObjects ------------------------------
(* Small values of every kind, and laws of what they show and add up to. *)
EXTENDS Objects, Json, IOUtils

VARIABLE o

K == atoi(IOEnv.LEN)
SeqsTo(S, n) == UNION {[1 .. m -> S] : m \in 0 .. n}

Values == {N(x) : x \in -2 .. 2} \cup {N(10), N(-10)}
Ints == {IntObj(v) : v \in Values}
Arr(es) == [k |-> "arr", es |-> es]
IntArrs == {Arr(q) : q \in SeqsTo(Ints, K)}
SmallInts == {IntObj(N(x)) : x \in {-1, 0, 2}}
Groups == {Arr(q) : q \in SeqsTo({Arr(r) : r \in SeqsTo(SmallInts, 2)}, 2)}
Strs == {[k |-> "str", t |-> v] : v \in {<<>>, <<"a">>, <<"\"", "\\">>, <<"剣", " ", ",">>}}
Bools == {[k |-> "bool", b |-> b] : b \in BOOLEAN}
Mixed == {Arr(q) : q \in SeqsTo({IntObj(N(2)), IntObj(N(-1)), Arr(<<IntObj(N(1)), IntObj(N(2))>>), Arr(<<>>)} \cup Strs \cup Bools, 2)}
         \cup {Arr(<<Arr(<<Arr(<<IntObj(N(1)), IntObj(N(2))>>), IntObj(N(3))>>), IntObj(N(4))>>)}
Us == {[k |-> "uexpr", groups |-> g, mod |-> m] : g \in Groups, m \in {IntObj(N(x)) : x \in {-3, 0, 1}}}
Objects == Ints \cup IntArrs \cup Mixed \cup Strs \cup Bools
           \cup {[k |-> "bcomp", vals |-> a, n |-> IntObj(N(2))] : a \in {x \in IntArrs : Len(x.es) <= 2}}
           \cup {[k |-> "rcomp", groups |-> g, n |-> IntObj(N(0))] : g \in Groups}
           \cup Us \cup {[k |-> "ucomp", u |-> u, n |-> IntObj(N(1))] : u \in Us}

Init == o \in Objects
Next == FALSE /\ o' = o

Export == PrintT("CASE " \o ToJson([o |-> o, qs |-> {<<q, Answer(o, q)>> : q \in Questions(o)}]))

\* the maximum is an element and none is larger; the sum does not depend on the
\* order and adds up over parts
Rev(q) == [i \in 1 .. Len(q) |-> q[Len(q) + 1 - i]]
Laws ==
  /\ o.k = "arr" /\ AllInts(o) /\ o.es # <<>> =>
       /\ \E i \in 1 .. Len(o.es) : o.es[i].v = Max(o)
       /\ \A i \in 1 .. Len(o.es) : NLe(o.es[i].v, Max(o))
       /\ Sum(Arr(Rev(o.es))) = Sum(o) /\ Max(Arr(Rev(o.es))) = Max(o)
       /\ Sum(o) = NAdd(Sum(Arr(Tail(o.es))), Head(o.es).v)
  /\ o.k = "uexpr" =>
       /\ Len(GroupSums(o).es) = Len(o.groups.es)
       /\ Sum(GroupSums(o)) = Sum(Arr(LET RECURSIVE Flat(_) Flat(q) == IF q = <<>> THEN <<>> ELSE Head(q).es \o Flat(Tail(q)) IN Flat(o.groups.es)))

\* what is shown tells values apart
Telling == LET S == IntArrs \cup Groups IN Cardinality({Inspect(x) : x \in S}) = Cardinality(S) /\ Cardinality({Tight(x) : x \in S}) = Cardinality(S)
ASSUME Telling
=============================================================================
