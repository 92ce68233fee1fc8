------------------------------- MODULE Registry -------------------------------
(* The game systems, the sessions selecting among them, and the HTTP API.

   A game is [id, name, key, idc, keyc]: its identifier, name and sort key, and
   the character codes of identifier and key, which give their order.  The base
   system is no registered game.  The registry never changes; a session's state
   is the identifier of the game selected.                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Base == [id |-> "DiceBot", name |-> "ダイスボット (指定無し)", key |-> "*たいすほつと", idc |-> <<68>>, keyc |-> <<42>>]

\* lexicographic order of code sequences
RECURSIVE LessFrom(_, _, _)
LessFrom(a, b, i) ==
  IF i > Len(b) THEN FALSE
  ELSE IF i > Len(a) THEN TRUE
  ELSE IF a[i] # b[i] THEN a[i] < b[i]
  ELSE LessFrom(a, b, i + 1)
Less(a, b) == LessFrom(a, b, 1)

RECURSIVE Sorted(_, _)
Sorted(games, by) ==
  IF games = {} THEN <<>>
  ELSE LET m == CHOOSE g \in games : \A h \in games : h = g \/ Less(g[by], h[by])
       IN <<m>> \o Sorted(games \ {m}, by)

Each(q, F(_)) == [i \in 1 .. Len(q) |-> F(q[i])]

\* the identifiers, in their order, and the infos, in the order of the keys
Ids(reg, base) == Each((IF base THEN <<Base>> ELSE <<>>) \o Sorted(reg, "idc"), LAMBDA g : g.id)
Info(g) == <<g.id, g.name, g.key>>
Infos(reg, base) == Each((IF base THEN <<Base>> ELSE <<>>) \o Sorted(reg, "keyc"), Info)

Games(reg) == reg \cup {Base}
Known(reg, id) == \E g \in Games(reg) : g.id = id
Game(reg, id) == CHOOSE g \in Games(reg) : g.id = id

---------------------------------------------------------------------------
(* The API.  A body is the set of its leaves. *)

Q(s) == "\"" \o s \o "\""
Leaves(name, q) == {name \o "#" \o ToString(Len(q))} \cup {name \o "[" \o ToString(i) \o "]=" \o Q(q[i]) : i \in 1 .. Len(q)}
NameLeaves(q) == {"names#" \o ToString(Len(q))} \cup
                 UNION {{"names[" \o ToString(i) \o "].system=" \o Q(q[i][1]),
                         "names[" \o ToString(i) \o "].name=" \o Q(q[i][2]),
                         "names[" \o ToString(i) \o "].sort_key=" \o Q(q[i][3])} : i \in 1 .. Len(q)}
OkLeaf(code) == "ok=" \o (IF code = 200 THEN "true" ELSE "false")

Paths == {"/", "/v1/version", "/v1/systems", "/v1/names"}
Body(reg, ver, path) ==
  {OkLeaf(200)} \cup
  CASE path = "/" -> {"message=\"Hello. This is GoBCDiceAPI.\""}
    [] path = "/v1/version" -> {"api=" \o Q(ver[1]), "bcdice=" \o Q(ver[2])}
    [] path = "/v1/systems" -> Leaves("systems", Ids(reg, TRUE))
    [] path = "/v1/names" -> NameLeaves(Infos(reg, TRUE))

\* what the helpers make of a body, a list of bodies, an error
IsOkLeaf(x) == x \in {"ok=true", "ok=false"}
ObjectBody(code, body) == {x \in body : ~IsOkLeaf(x)} \cup {OkLeaf(code)}
Within(i, x) == "items[" \o ToString(i) \o "]." \o x
ArrayBody(code, items) == {OkLeaf(code), "count=" \o ToString(Len(items)), "items#" \o ToString(Len(items))} \cup
                          UNION {{Within(i, items[i][j]) : j \in 1 .. Len(items[i])} : i \in 1 .. Len(items)}
ErrorBody(code, msg) == {OkLeaf(code), "message=" \o Q(msg)}

---------------------------------------------------------------------------
(* Operations: [st, ans] for a state [sel: session -> identifier, errs: field ->
   message] and an operation                                                  *)

R(st, ans) == [st |-> st, ans |-> ans]
With(f, x, y) == [z \in DOMAIN f \cup {x} |-> IF z = x THEN y ELSE f[z]]

Apply(reg, ver, st, o) ==
  CASE o.op = "new"    -> R([st EXCEPT !.sel = With(@, o.i, Base.id)], "none")
    [] o.op = "select" -> IF Known(reg, o.id) THEN R([st EXCEPT !.sel = With(@, o.i, o.id)], "ok") ELSE R(st, "error")
    [] o.op = "game"   -> R(st, Info(Game(reg, st.sel[o.i])))
    [] o.op = "find"   -> R(st, IF Known(reg, o.id) THEN Info(Game(reg, o.id)) ELSE <<"error">>)
    [] o.op = "ids"    -> R(st, Ids(reg, o.base))
    [] o.op = "infos"  -> R(st, Infos(reg, o.base))
    [] o.op = "http"   -> R(st, [code |-> 200, json |-> TRUE, body |-> Body(reg, ver, o.path)])
    [] o.op = "object" -> R(st, [code |-> o.code, json |-> TRUE, body |-> ObjectBody(o.code, o.body)])
    [] o.op = "array"  -> R(st, [code |-> o.code, json |-> TRUE, body |-> ArrayBody(o.code, o.items)])
    [] o.op = "failure" -> R(st, [code |-> o.code, json |-> TRUE, body |-> ErrorBody(o.code, o.msg)])
    \* the record of validation errors
    [] o.op = "clear" -> R([st EXCEPT !.errs = <<>>], "none")
    [] o.op = "add" -> R([st EXCEPT !.errs = With(@, o.field, o.msg)], "none")
    [] o.op = "min" -> R(IF o.v < o.b THEN [st EXCEPT !.errs = With(@, o.field, o.msg)] ELSE st, "none")
    [] o.op = "max" -> R(IF o.v > o.b THEN [st EXCEPT !.errs = With(@, o.field, o.msg)] ELSE st, "none")
    [] o.op = "errors" -> R(st, [has |-> DOMAIN st.errs # {}, all |-> {<<f, st.errs[f]>> : f \in DOMAIN st.errs}])

Fresh == [sel |-> <<>>, errs |-> <<>>]
=============================================================================
