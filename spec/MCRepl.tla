-------------------------------- MODULE MCRepl --------------------------------
(* All sessions of a few lines out of a collection, from the beginning and from
   a session with scripted dice.  Where dice are random the lines ask for dice
   with one face, so that every answer is settled.                            *)
EXTENDS Repl, Json, IOUtils

VARIABLES first, st, hist
vars == <<first, st, hist>>

K1 == atoi(IOEnv.LEN)
K2 == atoi(IOEnv.LEN2)

Lines == <<
  "2D6", "s1D6>=4", "C(1/0)", "1D1", "xyz", "", " .eval 1B6 tail ", "2D6+1D1", ".eval",
  ".ast S2D6+1", ".ast 1/", ".ast", ".roll 2 6", ".roll 1  1", ".roll 0 6", ".roll 4 6", ".roll x",
  ".set-game", ".set-game DiceBot", ".set-game dicebot", ".list-games",
  ".set-die-feeder queue", ".set-die-feeder MT", ".set-die-feeder", ".set-die-feeder dice",
  ".set-dice-queue 5/6, 1/1", ".set-dice-queue", ".set-dice-queue 3/6,", ".set-dice-queue 6/6,5/6,4/6,1/6",
  ".foo", ".q", ".quit", "q", ".q 1", ".help" >>
L == 1 .. Len(Lines)

\* the session begins with these lines
Prelude == <<".set-die-feeder queue", ".set-dice-queue 4/6,2/6,6/6">>
After2 == Submit(Submit(Begin, Chars(Prelude[1])).st, Chars(Prelude[2])).st

Init == \/ first = 1 /\ st = Begin /\ hist = <<>>
        \/ first = 2 /\ st = After2 /\ hist = <<>>

Next == /\ Len(hist) < (IF first = 1 THEN K1 ELSE K2)
        /\ ~st.ended
        /\ \E i \in L : LET r == Submit(st, Chars(Lines[i]))
                        IN /\ r.a.k # "random" /\ (r.a.k = "rolled" => r.a.q = N(1))
                           /\ st' = r.st
                           /\ hist' = Append(hist, [i |-> i,
                                a |-> IF r.a.k = "rolled" THEN TextAns(Result \o WriteDice([j \in 1 .. ToInt(r.a.n) |-> <<N(1), N(1)>>], ", ") \o NL)
                                      ELSE r.a])
        /\ first' = first

\* lines that tell the state at the end
Probes == IF st.ended THEN <<>> ELSE <<".set-game", IF st.mode = "mt" THEN ".set-dice-queue 1/6" ELSE "3D6", "1D1">>
ProbeAns(s) == IF st.mode = "mt" /\ s = "1D1" THEN TextAns(ReplyText(FALSE, "DiceBot : (1D1) ＞ 1[1] ＞ 1")) ELSE Submit(st, Chars(s)).a
Export == PrintT("CASE " \o ToJson([first |-> IF first = 1 THEN <<>> ELSE Prelude,
                                    lines |-> [j \in 1 .. Len(hist) |-> Lines[hist[j].i]] \o Probes,
                                    as |-> [j \in 1 .. Len(hist) |-> hist[j].a] \o MapSeq(Probes, ProbeAns)]))

LastLine == Lines[hist'[Len(hist')].i]
Typed(c) == ReadLine(Chars(LastLine)).cmd = c
\* only the line made for it changes each part of the state
Discipline == [][ /\ st'.mode # st.mode => Typed("set-die-feeder")
                  /\ st'.script # st.script => Typed("set-dice-queue") \/ (Typed("set-die-feeder") /\ st'.script = <<>>)
                  /\ st'.game # st.game => Typed("set-game")
                  /\ st'.ended # st.ended => Typed("quit") ]_vars
NoScriptForRandom == st.mode = "mt" => st.script = <<>>
\* an answer depends on the state and the line alone
Same == \A i \in L : Settled(Submit(st, Chars(Lines[i])).a) => Submit(st, Chars(Lines[i])) = Submit(st, Chars(" " \o Lines[i] \o " "))
=============================================================================
