------------------------------ MODULE TraceExec ------------------------------
(* Conformance of recorded executions: every recorded command is a behaviour
   Submit . Draw* . (Complete | Fail | Refuse) of the specification.

   A recorded execution ev carries the text t, the game g, the draws D, how it
   ended (out: "reply", "error", or what else happened) and the reply.        *)
EXTENDS Eval, Deep

NoCmd == [k |-> ""]

\* What the specification says about an execution of text t in game g with
\* draws D.  out: "reply", "error" (why: "refused" or "failed"), "any" (nothing
\* is specified) or "draws" (these draws cannot happen; why says what should).
Expected(t, g, D) ==
  LET p == ParseInput(t)
      r == Run(p.v, D)
      base == [out |-> "any", why |-> "", k |-> "", msg |-> "", game |-> g, verdict |-> "",
               secret |-> IsSecretText(t), dice |-> <<>>, parts |-> <<>>]
  IN IF ~p.ok THEN IF D = <<>> THEN [base EXCEPT !.out = "error", !.why = "refused"]
                                    ELSE [base EXCEPT !.out = "draws", !.why = "refused: none"]
     ELSE CASE r.s = "over" -> [base EXCEPT !.k = p.v.k, !.why = "over"]
            [] r.s = "need" -> [base EXCEPT !.out = "draws", !.k = p.v.k,
                                            !.why = "next one with faces " \o NStr(r.need)]
            [] r.s = "bad"  -> [base EXCEPT !.out = "draws", !.k = p.v.k,
                                            !.why = "not the one at " \o ToString(r.i - 1)]
            [] r.s \in {"done", "fail"} /\ r.i # Len(D) + 1 ->
                 [base EXCEPT !.out = "draws", !.k = p.v.k, !.why = "only " \o ToString(r.i - 1)]
            [] r.s = "fail" -> [base EXCEPT !.out = "error", !.k = p.v.k, !.why = "failed"]
            [] r.s = "done" -> [base EXCEPT !.out = "reply", !.k = p.v.k, !.msg = MessageOf(g, r.reply),
                                            !.verdict = r.reply.verdict, !.parts = r.reply.parts,
                                            !.dice = [j \in 1 .. Len(D) |-> <<D[j].v, D[j].s>>]]

\* A game system with commands of its own: own is a list of [t: the command, n, q:
\* the dice it rolls, up: whether it gives up then].  It is shown the part before
\* the first blank, without secret mark; what it does not answer is a basic command.
ExpectedOwn(t, g, D, own) ==
  LET c == {i \in 1 .. Len(own) : own[i].t = FirstPart(Unmarked(t))}
      o == own[CHOOSE i \in c : TRUE]
      d == IF o.n = NZero THEN [st |-> Start, v |-> <<>>] ELSE Dice(D, Start, o.n, o.q)
      basic == Expected(t, g, SubSeq(D, d.st.i, Len(D)))
  IN IF c = {} THEN Expected(t, g, D)
     ELSE CASE d.st.s \in {"need", "bad"} -> [basic EXCEPT !.out = "draws", !.why = "own command"]
            [] d.st.s = "fail" \/ o.up -> basic
            [] d.st.i # Len(D) + 1 -> [basic EXCEPT !.out = "draws", !.why = "own command"]
            [] OTHER -> [out |-> "reply", why |-> "", k |-> "own", msg |-> o.id \o " : own" \o SepPart \o Cat(o.t), game |-> o.id,
                         verdict |-> <<"UNSPECIFIED", "SUCCESS", "FAILURE">>[o.v + 1], secret |-> IsSecretText(t), parts |-> <<"own", Cat(o.t)>>,
                         dice |-> [j \in 1 .. Len(D) |-> <<D[j].v, D[j].s>>]]

\* does the recorded execution ev agree altogether?
ExecAgrees(ev, x) ==
  \/ x.out = "any" /\ ev.out \in {"reply", "error"}
  \/ x.out = "error" /\ ev.out = "error" /\ ev.nores
  \/ /\ x.out = "reply" /\ ev.out = "reply"
     /\ ev.msg = x.msg /\ ev.game = x.game /\ ev.verdict = x.verdict
     /\ ev.secret = x.secret /\ ev.dice = x.dice

---------------------------------------------------------------------------
(* The echo *)

RECURSIVE CountRanges(_)
CountRanges(e) == CASE e.k = "int" -> 0
                    [] e.k = "neg" -> CountRanges(e.e)
                    [] e.k = "roll" -> CountRanges(e.n) + CountRanges(e.s)
                    [] e.k = "rand" -> 1
                    [] OTHER -> CountRanges(e.l) + CountRanges(e.r)

RangesOf(cmd) ==
  CASE cmd.k \in {"dexpr", "dcomp"} -> CountRanges(cmd.e)
    [] cmd.k \in {"calc", "choice"} -> 0
    [] OTHER -> FoldLeft(LAMBDA c, r : c + CountRanges(r), 0, cmd.rolls)

RECURSIVE HasRoll(_)
HasRoll(e) == CASE e.k = "roll" -> TRUE
                [] e.k \in {"int", "rand", "sum"} -> FALSE
                [] e.k = "neg" -> HasRoll(e.e)
                [] OTHER -> HasRoll(e.l) \/ HasRoll(e.r)

KnownEcho(cmd, red) == cmd.k \in {"calc", "dexpr", "dcomp"} /\ QuotientInProduct(red.e)

PositiveRolls(c) == c.k \in {"calc", "choice"} \/ c.k \in {"dexpr", "dcomp"}
                    \/ \A i \in 1 .. Len(c.rolls) : NLe(N(1), c.rolls[i].n.v) /\ NLe(N(1), c.rolls[i].s.v)

\* Run again on what is echoed, with the dice of the rolls, a command gives the
\* same reply.  (The echo of the echo may put parentheses around a negative
\* number that came from a range.)
ReadsBack(cmd, res, D) ==
  (~KnownEcho(cmd, res.red) /\ PositiveRolls(res.red)
   /\ (cmd.k \in {"dexpr", "dcomp"} => HasRoll(cmd.e))) =>
     LET p == Parse(EchoTextOf(res.red))
         again == Run(p.v, SubSeq(D, RangesOf(cmd) + 1, Len(D)))
         a == again.reply.parts
         b == res.reply.parts
     IN /\ p.ok
        \* (the literal of the smallest integer of 64 bits is itself beyond them)
        /\ IF again.s = "over" THEN TRUE ELSE
           /\ again.s = "done"
           /\ IF cmd.k \in {"dexpr", "dcomp"} THEN SubSeq(a, 3, Len(a)) = SubSeq(b, 3, Len(b)) ELSE a = b

---------------------------------------------------------------------------
(* What the single properties say about an execution.  Where an execution
   departs from the specification in a matter of another property, they say
   nothing. *)

Both(ev, x) == x.out = "reply" /\ ev.out = "reply"

PartEq(ev, x, i) == Len(ev.parts) >= i /\ ev.parts[i] = x.parts[i]

\* the outcome and the parts is of the reply, for commands of kinds ks
SaysParts(ev, x, ks, is) ==
  \/ x.k \notin ks
  \/ x.out = "any"
  \/ x.out = "error" /\ (ev.out = "error" /\ ev.nores)
  \/ /\ Both(ev, x)
     /\ \A i \in is : i <= Len(x.parts) => PartEq(ev, x, i)
     /\ 9 \in is => Len(ev.parts) = Len(x.parts)

WholeReply(ev, x, ks) == SaysParts(ev, x, ks, 1 .. 9)

SumKinds == {"dexpr", "dcomp"}
BasicKinds == {"blist", "bcomp"}
ExplodingKinds == {"rlist", "rcomp"}
CompoundingKinds == {"uexpr", "ucomp"}
AllKinds == {"calc", "choice"} \cup SumKinds \cup BasicKinds \cup ExplodingKinds \cup CompoundingKinds

\* s without its parentheses
Bare(s) == Cat([i \in 1 .. Len(s) |-> LET c == SubSeq(s, i, i) IN IF c \in {"(", ")"} THEN "" ELSE c])

Says01(ev, x) == \/ x.out \in {"any", "draws"} /\ x.why # "refused: none"
                 \/ x.out = "error" /\ x.why = "failed"
                 \/ x.out = "error" /\ ev.out = "error"
                 \/ Both(ev, x)

Says02(ev, x) == IF x.k = "calc" THEN SaysParts(ev, x, {"calc"}, {2, 3})
                 ELSE IF x.k \in SumKinds THEN SaysParts(ev, x, SumKinds, {3, 4})
                 ELSE /\ SaysParts(ev, x, AllKinds, 2 .. 9)
                      /\ Both(ev, x) => (Len(ev.parts) >= 1 /\ Bare(ev.parts[1]) = Bare(x.parts[1]))

Says03(ev, x) == ~Both(ev, x) \/ /\ PartEq(ev, x, 1)
                                 /\ x.k \in SumKinds => PartEq(ev, x, 2)
                                 /\ LET p == ParseInput(ev.t).v IN ReadsBack(p, Run(p, ev.D), ev.D)

Says04(ev, x) == /\ x.out # "draws"
                 /\ Both(ev, x) => ev.dice = x.dice

Says05(ev, x) == SaysParts(ev, x, SumKinds, {1, 2, 3})

Says06(ev, x) == /\ SaysParts(ev, x, {"dcomp"}, {3, 4, 9})
                 /\ Both(ev, x) => ev.verdict = x.verdict

Says07(ev, x) == WholeReply(ev, x, BasicKinds)
Says08(ev, x) == WholeReply(ev, x, ExplodingKinds)
Says09(ev, x) == WholeReply(ev, x, CompoundingKinds)
Says10(ev, x) == WholeReply(ev, x, {"choice"})

\* does the text have a range in it?
HasDots(t) == \E i \in 1 .. Len(t) - 2 : t[i] = "." /\ t[i + 1] = "." /\ t[i + 2] = "."
Says11(ev, x) == HasDots(ev.t) => WholeReply(ev, x, AllKinds \ {"choice", "calc"})

Says12(ev, x) == ev.out = "reply" => ev.secret = x.secret

\* (in the bullets below => binds within its bullet)
Says13(ev, x) == \/ x.out \in {"any", "draws"} /\ x.why # "refused: none" /\ ev.out \in {"reply", "error"}
                 \/ x.out = "error" /\ ev.out = "error" /\ ev.nores
                 \/ Both(ev, x)

Says20(ev, x) == ev.out = "reply" =>
                   /\ ev.msg = ev.g \o " : " \o Join(ev.parts, SepPart)
                   /\ ev.joined = Join(ev.parts, SepPart)
                   /\ ev.game = ev.g
                   /\ Both(ev, x) => ev.parts = x.parts

Says(prop, ev, x) ==
  CASE prop = "P01" -> Says01(ev, x)
    [] prop = "P02" -> Says02(ev, x)
    [] prop = "P03" -> Says03(ev, x)
    [] prop = "P04" -> Says04(ev, x)
    [] prop = "P05" -> Says05(ev, x)
    [] prop = "P06" -> Says06(ev, x)
    [] prop = "P07" -> Says07(ev, x)
    [] prop = "P08" -> Says08(ev, x)
    [] prop = "P09" -> Says09(ev, x)
    [] prop = "P10" -> Says10(ev, x)
    [] prop = "P11" -> Says11(ev, x)
    [] prop = "P12" -> Says12(ev, x)
    [] prop = "P13" -> Says13(ev, x)
    [] prop = "P20" -> Says20(ev, x)
    [] OTHER -> ExecAgrees(ev, x)

---------------------------------------------------------------------------
(* Recorded readings of texts *)

\* is there an integer beyond 64 bits (or close to that) in the text?
HasHuge(t) == \E i \in 1 .. Len(t) - 18 : \A j \in i .. i + 18 : t[j] \in DigitChars
HugeFits(t) == \A i \in 1 .. Len(t) : (t[i] \in DigitChars /\ At(t, i - 1) \notin DigitChars)
                   => InI64(NOfDigits(t, i, DigitsEnd(t, i) - 1))

ExpectedParse(t) ==
  LET p == Parse(t)
  IN IF ~p.ok THEN [out |-> "error"]
     ELSE IF p.v.k = "choice" THEN [out |-> "items", items |-> p.v.items]
     ELSE IF HasHuge(t) /\ ~HugeFits(t) THEN [out |-> "tree", x |-> ""]
     ELSE [out |-> "tree", x |-> CommandSExp(p.v)]

\* A command as typed, written again: ev.x is what is written, ev.y the structure
\* of the command that is read from it, ev.same tells whether writing left the
\* command as it was and says the same a second time.
ExpectedTyped(t) ==
  LET p == Parse(t)
      q == Parse(TypedText(p.v))
  IN IF HasHuge(t) /\ ~HugeFits(t) THEN [out |-> "any"]
     ELSE IF ~p.ok THEN [out |-> "error"]
     ELSE IF ~(TypedReadsBack(p.v) /\ (Len(t) > 300 \/ TypedMinimal(p.v))) THEN [out |-> "specification", x |-> Written(p.v)]
     ELSE [out |-> "typed", x |-> Written(p.v), y |-> IF p.v.k = "choice" THEN "" ELSE CommandSExp(q.v),
           items |-> IF p.v.k = "choice" THEN q.v.items ELSE <<>>]

TypedAgrees(ev, x) ==
  \/ x.out = "any" /\ ev.out \in {"typed", "error"}
  \/ x.out = "error" /\ ev.out = "error"
  \/ /\ x.out = "typed" /\ ev.out = "typed"
     /\ ev.x = x.x /\ ev.y = x.y /\ ev.items = x.items /\ ev.same

ParseAgrees(ev, x) ==
  \/ x.out = "any" /\ ev.out \in {"tree", "items", "error"}
  \/ x.out = "error" /\ ev.out = "error"
  \/ x.out = "tree" /\ ev.out = "tree" /\ (x.x = "" \/ ev.x = x.x)
  \/ x.out = "items" /\ ev.out = "items" /\ ev.items = x.items
=============================================================================
