--------------------------------- MODULE Repl ---------------------------------
(* The interactive shell.

   Its state: the mode ("mt": random dice, "queue": scripted dice), the scripted
   dice last set, the selected game, and whether it has ended.  Submit gives the
   state after a line and what is answered: an answer is [k, ...] with
     text    this text            error   an error message
     random  the reply to a command with some dice
     rolled  n random dice with q faces
     help    the help text        any     nothing is laid down              *)
EXTENDS TraceExec, TestData

ESC == "␛"     \* stands for the escape character in recorded output
Reset == ESC \o "[0m"
Result == ESC \o "[36m=>" \o Reset \o " "
SecretMark == ESC \o "[33m[secret]" \o Reset \o " "
Ok == ESC \o "[36mOK" \o Reset \o NL
ErrOn == ESC \o "[31m"

Games == {"DiceBot"}
GameList == <<"DiceBot">>

Begin == [mode |-> "mt", script |-> <<>>, game |-> "DiceBot", ended |-> FALSE]

Cmds == {"ast", "eval", "roll", "set-game", "list-games", "set-die-feeder", "set-dice-queue", "help", "quit"}
Args == ("ast" :> "BCDiceコマンド") @@ ("eval" :> "BCDiceコマンド") @@ ("roll" :> "振る数 面の数")
     @@ ("set-game" :> "ゲーム識別子") @@ ("list-games" :> "") @@ ("set-die-feeder" :> "mt/queue")
     @@ ("set-dice-queue" :> "[値/面数[, 値/面数]...]") @@ ("help" :> "") @@ ("quit" :> "")

TextAns(s) == [k |-> "text", s |-> s]
ErrorAns == [k |-> "error"]
AnyAns == [k |-> "any"]
\* every command stands in a line of its own, with its arguments
HelpAns == [k |-> "help", ls |-> {ESC \o "[1m." \o c \o Reset \o (IF Args[c] = "" THEN "" ELSE " " \o Args[c]) : c \in Cmds}]
Usage(c) == TextAns("使用法: ." \o c \o " " \o Args[c] \o NL)
Step(st, a) == [st |-> st, a |-> a]

---------------------------------------------------------------------------
(* Reading a line *)

NameChars == {"-", "a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m",
              "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z"}
RECURSIVE NameEnd(_, _)
NameEnd(t, i) == IF At(t, i) \in NameChars THEN NameEnd(t, i + 1) ELSE i

\* a dot command and its argument, or cmd = "" for a command line
ReadLine(line) ==
  LET t == TrimBlanks(line)
      e == NameEnd(t, 2)
      name == Cat(SubSeq(t, 2, e - 1))
      rest == SubSeq(t, e, Len(t))
  IN IF t = <<".", "q">> THEN [cmd |-> "quit", arg |-> <<>>, open |-> FALSE]
     ELSE IF At(t, 1) # "." \/ name \notin Cmds THEN [cmd |-> "", arg |-> t, open |-> FALSE]
     ELSE [cmd |-> name, arg |-> DropL(rest, AsciiBlanks),
           \* not laid down: something other than a blank behind the name, and
           \* arguments where none are expected
           open |-> rest # <<>> /\ (rest[1] \notin AsciiBlanks \/ Args[name] = "")]

---------------------------------------------------------------------------
(* Commands of the dice notation *)

\* the end of running v with scripted dice, each being what is drawn next
RECURSIVE Scripted(_, _, _)
Scripted(v, D, script) ==
  LET r == Run(v, D)
  IN IF r.s # "need" THEN r
     ELSE IF script = <<>> THEN Run(v, Append(D, [q |-> r.need, ok |-> FALSE, v |-> NZero, s |-> NZero]))
     ELSE Scripted(v, Append(D, [q |-> r.need, ok |-> TRUE, v |-> script[1][1], s |-> script[1][2]]), Tail(script))

ReplyText(secret, msg) == Result \o (IF secret THEN SecretMark ELSE "") \o msg \o NL

EvalAns(st, t) ==
  LET p == ParseInput(t)
      r == IF st.mode = "queue" THEN Scripted(p.v, <<>>, st.script) ELSE Run(p.v, <<>>)
  IN IF t = <<>> THEN Usage("eval")
     ELSE IF ~p.ok THEN ErrorAns
     ELSE CASE r.s = "done" -> TextAns(ReplyText(IsSecretText(t), MessageOf(st.game, r.reply)))
            [] r.s = "fail" -> ErrorAns
            [] r.s = "over" -> AnyAns
            [] r.s = "need" -> [k |-> "random", v |-> p.v, secret |-> IsSecretText(t), game |-> st.game]

AstAns(t) ==
  LET x == ExpectedParse(Unmarked(t))
      p == Parse(Unmarked(t))
  IN IF t = <<>> THEN Usage("ast")
     ELSE CASE x.out = "error" -> ErrorAns
            [] x.out = "tree" /\ x.x # "" -> TextAns(ReplyText(IsSecretText(t), x.x))
            [] x.out = "items" /\ (\A i \in 1 .. Len(x.items) : IsPlain(x.items[i])) -> TextAns(ReplyText(IsSecretText(t), CommandSExp(p.v)))
            [] OTHER -> AnyAns

\* .roll: two numbers
RollAns(st, t) ==
  LET e == CHOOSE i \in 1 .. Len(t) + 1 : (i > Len(t) \/ t[i] \in AsciiBlanks) /\ \A j \in 1 .. i - 1 : t[j] \notin AsciiBlanks
      a == SubSeq(t, 1, e - 1)
      b == DropL(SubSeq(t, e, Len(t)), AsciiBlanks)
      n == IntOf(a)
      q == IntOf(b)
      have == SubSeq(st.script, 1, IF NLe(n, N(Len(st.script))) THEN ToInt(n) ELSE 0)
  IN IF ~AllDigits(a) \/ ~AllDigits(b) THEN Usage("roll")
     ELSE IF ~InI64(n) \/ ~InI64(q) THEN ErrorAns
     ELSE IF n = NZero \/ q = NZero THEN ErrorAns
     ELSE IF st.mode = "mt" THEN [k |-> "rolled", n |-> n, q |-> q]
     ELSE IF ~NLe(n, N(Len(st.script))) THEN ErrorAns
     ELSE IF \E i \in 1 .. Len(have) : have[i][2] # q \/ ~NLe(N(1), have[i][1]) \/ ~NLe(have[i][1], q) THEN ErrorAns
     ELSE TextAns(Result \o WriteDice(have, ", ") \o NL)

---------------------------------------------------------------------------
(* A line *)

LowerText(t) == Cat(MapSeq(t, Lower))

Submit(st, line) ==
  LET c == ReadLine(line)
      t == c.arg
      d == ReadDice(t)
  IN IF c.open THEN Step(st, AnyAns)
     ELSE CASE c.cmd \in {"", "eval"} -> Step(st, EvalAns(st, t))
            [] c.cmd = "ast" -> Step(st, AstAns(t))
            [] c.cmd = "roll" -> Step(st, RollAns(st, t))
            [] c.cmd = "set-game" ->
                 IF t = <<>> THEN Step(st, TextAns(st.game \o NL))
                 ELSE IF Cat(t) \in Games THEN Step([st EXCEPT !.game = Cat(t)], TextAns(Ok))
                 ELSE Step(st, ErrorAns)
            [] c.cmd = "list-games" -> Step(st, TextAns(Cat([i \in 1 .. Len(GameList) |-> GameList[i] \o NL])))
            [] c.cmd = "set-die-feeder" ->
                 IF LowerText(t) \in {"mt", "queue"}
                 THEN Step([st EXCEPT !.mode = LowerText(t), !.script = <<>>], TextAns(Ok))
                 ELSE Step(st, Usage("set-die-feeder"))
            [] c.cmd = "set-dice-queue" ->
                 IF st.mode = "mt" THEN Step(st, ErrorAns)
                 ELSE IF d.out = "ok" THEN Step([st EXCEPT !.script = d.dice], TextAns(Ok))
                 ELSE Step(st, IF d.out = "error" THEN ErrorAns ELSE AnyAns)
            [] c.cmd = "help" -> Step(st, HelpAns)
            [] c.cmd = "quit" -> Step([st EXCEPT !.ended = TRUE], TextAns(""))

---------------------------------------------------------------------------
(* Does an output answer as it should? *)

IsError(out) ==
  LET t == Chars(out)
      body == SubSeq(t, 6, Len(t) - 5)
  IN /\ Len(t) > 10 /\ SubSeq(out, 1, 5) = ErrOn /\ SubSeq(out, Len(t) - 4, Len(t)) = Reset \o NL
     /\ \A i \in 1 .. Len(body) : body[i] # ESC

\* some dice give this output
RECURSIVE Fits(_, _, _)
Fits(a, D, out) ==
  LET r == Run(a.v, D)
  IN CASE r.s = "done" -> out = ReplyText(a.secret, MessageOf(a.game, r.reply))
       [] r.s = "fail" -> IsError(out)
       [] r.s = "over" -> TRUE
       [] r.s = "need" -> \/ Len(D) > 3 \/ ~NLe(r.need, N(12))
                          \/ \E x \in 1 .. ToInt(r.need) :
                               Fits(a, Append(D, [q |-> r.need, ok |-> TRUE, v |-> N(x), s |-> r.need]), out)

\* n dice with q faces each
FitsRoll(a, out) ==
  LET w == Len(Result)
      ok == Len(out) > w /\ SubSeq(out, 1, w) = Result /\ SubSeq(out, Len(out), Len(out)) = NL
      d == ReadDice(Chars(SubSeq(out, w + 1, Len(out) - 1)))
  IN /\ ok /\ d.out = "ok"
     /\ N(Len(d.dice)) = a.n
     /\ \A i \in 1 .. Len(d.dice) : d.dice[i][2] = a.q /\ NLe(N(1), d.dice[i][1]) /\ NLe(d.dice[i][1], a.q)
     /\ SubSeq(out, w + 1, Len(out) - 1) = WriteDice(d.dice, ", ")

IsHelp(a, out) == LET ls == Split(Chars(out), NL) IN \A x \in a.ls : \E i \in 1 .. Len(ls) : Cat(ls[i]) = x

Answers(a, out) ==
  CASE a.k = "text" -> out = a.s
    [] a.k = "error" -> IsError(out)
    [] a.k = "random" -> Fits(a, <<>>, out)
    [] a.k = "rolled" -> FitsRoll(a, out)
    [] a.k = "help" -> IsHelp(a, out)
    [] a.k = "any" -> TRUE

\* is the output the same every time?
Settled(a) == a.k \in {"text", "error", "help"}
=============================================================================
