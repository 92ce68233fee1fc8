-------------------------------- MODULE Objects --------------------------------
(* Values of evaluated commands: what they show and what they add up to.

   A value is [k |-> "int", v], [k |-> "bool", b], [k |-> "str", t] (t a text),
   [k |-> "arr", es], [k |-> "bcomp", vals, n], [k |-> "rcomp", groups, n],
   [k |-> "uexpr", groups, mod], [k |-> "ucomp", u, n]; n and mod are "int".   *)
EXTENDS Num, Text, FiniteSets

ItemQuoted(item) == "\"" \o Cat([i \in 1 .. Len(item) |->
                      IF item[i] = "\"" THEN "\\\"" ELSE IF item[i] = "\\" THEN "\\\\" ELSE item[i]]) \o "\""

RECURSIVE Shown(_, _)
\* sep: what stands between the elements of an array
Shown(o, sep) ==
  CASE o.k = "int"  -> NStr(o.v)
    [] o.k = "bool" -> IF o.b THEN "true" ELSE "false"
    [] o.k = "str"  -> ItemQuoted(o.t)
    [] o.k = "arr"  -> "[" \o Join([i \in 1 .. Len(o.es) |-> Shown(o.es[i], sep)], sep) \o "]"
    [] o.k = "bcomp" -> "<BRollCompResult Values=" \o Shown(o.vals, ", ") \o ", NumOfSuccesses=" \o Shown(o.n, "") \o ">"
    [] o.k = "rcomp" -> "<RRollCompResult ValueGroups=" \o Shown(o.groups, ", ") \o ", NumOfSuccesses=" \o Shown(o.n, "") \o ">"
    [] o.k = "uexpr" -> "<URollExprResult ValueGroups=" \o Shown(o.groups, ", ") \o ", Modifier=" \o Shown(o.mod, "") \o ">"
    [] o.k = "ucomp" -> "<URollCompResult RollResult=" \o Shown(o.u, "") \o ", NumOfSuccesses=" \o Shown(o.n, "") \o ">"
Inspect(o) == Shown(o, ", ")
\* arrays within arrays have no blanks either
Tight(o) == Shown(o, ",")
Joined(o, sep) == Join([i \in 1 .. Len(o.es) |-> Inspect(o.es[i])], sep)
JoinedTight(o, sep) == Join([i \in 1 .. Len(o.es) |-> Tight(o.es[i])], sep)

TypeName(o) == CASE o.k = "int" -> "INTEGER" [] o.k = "bool" -> "BOOLEAN" [] o.k = "str" -> "STRING" [] o.k = "arr" -> "ARRAY"
                 [] o.k = "bcomp" -> "B_ROLL_COMP_RESULT" [] o.k = "rcomp" -> "R_ROLL_COMP_RESULT"
                 [] o.k = "uexpr" -> "U_ROLL_EXPR_RESULT" [] o.k = "ucomp" -> "U_ROLL_COMP_RESULT"

---------------------------------------------------------------------------
IntObj(v) == [k |-> "int", v |-> v]
AllInts(o) == \A i \in 1 .. Len(o.es) : o.es[i].k = "int"

RECURSIVE SumTo(_, _)
SumTo(es, n) == IF n = 0 THEN NZero ELSE NAdd(SumTo(es, n - 1), es[n].v)
Sum(o) == SumTo(o.es, Len(o.es))
Max(o) == IF o.es = <<>> THEN NZero
          ELSE o.es[CHOOSE i \in 1 .. Len(o.es) : \A j \in 1 .. Len(o.es) : NLe(o.es[j].v, o.es[i].v)].v

GroupSums(u) == [k |-> "arr", es |-> [i \in 1 .. Len(u.groups.es) |-> IntObj(Sum(u.groups.es[i]))]]

\* answers are strings; "any" where the sum of something is beyond 64 bits or a
\* text has characters whose quotation is not laid down
RECURSIVE Plainly(_)
Plainly(o) == CASE o.k = "str" -> IsPlain(o.t)
                [] o.k = "arr" -> \A i \in 1 .. Len(o.es) : Plainly(o.es[i])
                [] OTHER -> TRUE
Bounded(n) == IF InI64(n) THEN NStr(n) ELSE "any"
\* sums of some of the elements fit, in whatever order they are added
SumsFit(es) == LET pos == SumTo(SelectSeq(es, LAMBDA e : NLt(NZero, e.v)), Cardinality({i \in 1 .. Len(es) : NLt(NZero, es[i].v)}))
                   neg == SumTo(SelectSeq(es, LAMBDA e : NLt(e.v, NZero)), Cardinality({i \in 1 .. Len(es) : NLt(es[i].v, NZero)}))
               IN InI64(pos) /\ InI64(neg)
GroupsFit(u) == (\A i \in 1 .. Len(u.groups.es) : SumsFit(u.groups.es[i].es)) /\ SumsFit(Append(GroupSums(u).es, u.mod))

Answer(o, q) ==
  CASE q.q = "type" -> TypeName(o)
    [] q.q = "inspect" -> IF Plainly(o) THEN Inspect(o) ELSE "any"
    [] q.q = "tight" -> IF Plainly(o) THEN Tight(o) ELSE "any"
    [] q.q = "joined" -> IF Plainly(o) THEN Joined(o, q.sep) ELSE "any"
    [] q.q = "joinedtight" -> IF Plainly(o) THEN JoinedTight(o, q.sep) ELSE "any"
    [] q.q = "length" -> ToString(Len(o.es))
    [] q.q = "at" -> IF Plainly(o) THEN Inspect(o.es[q.i]) ELSE "any"
    [] q.q = "max" -> IF AllInts(o) THEN NStr(Max(o)) ELSE "none"
    [] q.q = "sum" -> IF ~AllInts(o) THEN "none" ELSE IF SumsFit(o.es) THEN NStr(Sum(o)) ELSE "any"
    \* the value added to another
    [] q.q = "add" -> Bounded(NAdd(o.v, q.v))
    [] q.q = "groupsums" -> IF GroupsFit(o) THEN Inspect(GroupSums(o)) ELSE "any"
    [] q.q = "maxvalue" -> IF GroupsFit(o) THEN NStr(NAdd(Max(GroupSums(o)), o.mod.v)) ELSE "any"
    [] q.q = "sumvalue" -> IF GroupsFit(o) THEN NStr(NAdd(Sum(GroupSums(o)), o.mod.v)) ELSE "any"
    [] q.q = "groups" -> Inspect(o.groups)
    [] q.q = "modifier" -> Inspect(o.mod)

\* the questions that can be put to a value
Questions(o) ==
  {[q |-> "inspect"], [q |-> "type"]} \cup
  CASE o.k = "arr" -> {[q |-> x] : x \in {"tight", "length", "max", "sum"}} \cup [q : {"joined", "joinedtight"}, sep : {"", "/", ", "}]
                      \cup [q : {"at"}, i : 1 .. Len(o.es)]
    [] o.k = "int" -> [q : {"add"}, v : {N(3), N(-3), NZero}]
    [] o.k = "uexpr" -> {[q |-> x] : x \in {"groupsums", "maxvalue", "sumvalue", "groups", "modifier"}}
    [] OTHER -> {}

---------------------------------------------------------------------------
(* A reply under construction: its parts are added in order. *)

MessageText(game, parts) == game \o " : " \o Join(parts, " ＞ ")
VerdictText(n) == IF n = 0 THEN "UNSPECIFIED" ELSE IF n = 1 THEN "SUCCESS" ELSE IF n = 2 THEN "FAILURE" ELSE "UNKNOWN"

\* dice, each <<value, faces>>
DieSlash(d) == NStr(d[1]) \o "/" \o NStr(d[2])
DieAnswer(d, q) == IF q = "string" THEN "<Die " \o DieSlash(d) \o ">" ELSE "(Die " \o NStr(d[1]) \o " " \o NStr(d[2]) \o ")"
DiceText(ds, sep) == Join([i \in 1 .. Len(ds) |-> DieSlash(ds[i])], sep)
=============================================================================
