------------------------------ MODULE MCRegistry ------------------------------
(* All registries made of some games, and all short histories of two sessions. *)
EXTENDS Registry, Json, IOUtils

VARIABLES reg, st, hist
vars == <<reg, st, hist>>

K == atoi(IOEnv.LEN)

\* games whose order by identifier is not that by key, with an identifier that
\* begins another one, and one that stands before the base system
G(id, idc, name, key, keyc) == [id |-> id, idc |-> idc, name |-> name, key |-> key, keyc |-> keyc]
Pool == { G("Ab", <<65, 98>>, "エービー", "くこ", <<12367, 12371>>),
          G("Abc", <<65, 98, 99>>, "A \"quoted\" name", "くけ", <<12367, 12369>>),
          G("dicebot", <<100, 105, 99, 101, 98, 111, 116>>, "小文字", "", <<>>),
          G("剣", <<21091>>, "剣の世界", "z", <<122>>) }
Names == {g.id : g \in Pool} \cup {"DiceBot", "AB", "", "DiceBot "}
Ver == <<"0.0.1", "0.0.0">>

Ops == UNION { [op : {"new", "game"}, i : 1 .. 2],
               [op : {"select"}, i : {1}, id : Names],
               [op : {"find"}, id : Names],
               [op : {"ids", "infos"}, base : BOOLEAN],
               [op : {"http"}, path : Paths] }
Changing == {o \in Ops : o.op \in {"new", "select"}} \cup [op : {"select"}, i : {2}, id : {"剣", "Ab", "x"}]

Init == reg \in SUBSET Pool /\ st = [sel |-> <<Base.id, Base.id>>, errs |-> <<>>] /\ hist = <<>>
Do(o) == LET r == Apply(reg, Ver, st, o) IN st' = r.st /\ hist' = Append(hist, [o |-> o, ans |-> r.ans])
\* observations come last
Next == /\ reg' = reg
        /\ Len(hist) < K /\ (IF hist = <<>> THEN TRUE ELSE hist[Len(hist)].o \in Changing)
        /\ \E o \in (IF Len(hist) < K - 1 THEN Changing ELSE {}) \cup Ops : Do(o)

\* behind every history all is looked at
Looks == <<[op |-> "game", i |-> 1], [op |-> "game", i |-> 2], [op |-> "ids", base |-> TRUE], [op |-> "http", path |-> "/v1/names"]>>
Export == (hist # <<>> /\ hist[Len(hist)].o.op # "x") =>
          PrintT("CASE " \o ToJson([games |-> {Info(g) : g \in reg},
                                    h |-> hist \o [i \in 1 .. Len(Looks) |-> [o |-> Looks[i], ans |-> Apply(reg, Ver, st, Looks[i]).ans]]]))

---------------------------------------------------------------------------
Set(q) == {q[i] : i \in 1 .. Len(q)}
IdsOK ==
  \A base \in BOOLEAN :
    LET a == Ids(reg, base)
        b == Infos(reg, base)
        from == IF base THEN 2 ELSE 1
    IN /\ Len(a) = Cardinality(Set(a)) /\ Len(a) = Len(b)
       /\ base => a[1] = Base.id /\ b[1] = Info(Base)
       /\ ~base => Base.id \notin Set(a)
       /\ \A i, j \in from .. Len(a) : i < j => Less(Game(reg, a[i]).idc, Game(reg, a[j]).idc)
       /\ Set(a) = {x[1] : x \in Set(b)}
       \* every listed game can be selected and then is what the list says
       /\ \A x \in Set(b) : LET r == Apply(reg, Ver, st, [op |-> "select", i |-> 1, id |-> x[1]])
                            IN r.ans = "ok" /\ Apply(reg, Ver, r.st, [op |-> "game", i |-> 1]).ans = x
UnknownKeeps == \A n \in Names : ~Known(reg, n) => LET r == Apply(reg, Ver, st, [op |-> "select", i |-> 1, id |-> n])
                                                   IN r.ans = "error" /\ r.st = st
\* a session changes by its own operations only
Apart == [][\A i \in 1 .. 2 : st'.sel[i] # st.sel[i] => hist'[Len(hist')].o.i = i]_vars
OneOk == \A p \in Paths : Cardinality({x \in Body(reg, Ver, p) : IsOkLeaf(x)}) = 1
=============================================================================
