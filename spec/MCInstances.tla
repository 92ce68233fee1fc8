----------------------------- MODULE MCInstances -----------------------------
(* All interleavings of some scripts of two and three instances. *)
EXTENDS Instances, Json, IOUtils

VARIABLE order
vars == <<scripts, at, D, game, replies, order>>

Thorough == IOEnv.TIER = "thorough"
Which == atoi(IOEnv.SEED)

Cmd(s) == [op |-> "run", t |-> Chars(s)]
Game(g) == [op |-> "game", t |-> g]

Cmds == <<"1D6+1D4>=7", "2D6+1", "1B6+1B4>=3", "2B6", "1R6[4]", "2R4[3]>=2", "1U6[3]+1", "2U4[4]>=3", "choice[a,b,c]",
          "s1D[2...4] x", "C(7/2)", "xyz", "1D6/0", "CHOICE[x,y]", "[1...3]B6", "1D4*2-1D6", "1B6+0B6">>

\* one command each, of any two kinds
Pairs == {<<<<Cmd(Cmds[a])>>, <<Cmd(Cmds[b])>>>> : a \in 1 .. Len(Cmds), b \in 1 .. Len(Cmds)}

\* two each
Shorts == <<"1D6", "1B6>=3", "1R6[6]", "choice[a,b]", "C(1+2)", "S1U6[6]+1", "1D6/0", "?">>
Two(a, b) == <<Cmd(Shorts[a]), Cmd(Shorts[b])>>
\* (of every third choice of commands, or of all)
Doubles == {<<Two(a, b), Two(c, d)>> : a \in 1 .. Len(Shorts), b \in 1 .. Len(Shorts), c \in 1 .. Len(Shorts), d \in 1 .. Len(Shorts)}

\* three with a command each
Triples == {<<<<Cmd(Shorts[a])>>, <<Cmd(Shorts[b])>>, <<Cmd(Cmds[c])>>>> : a \in 1 .. Len(Shorts), b \in 1 .. Len(Shorts), c \in 1 .. Len(Cmds)}

\* with changes of the game system on the way
Games == {<<<<Game("Other"), Cmd(Cmds[a]), Game("Third")>>, <<Cmd(Cmds[b]), Game("第二"), Cmd("2D6")>>>> :
             a \in 1 .. Len(Cmds), b \in 1 .. Len(Cmds)}

Some(S, n) == IF Thorough THEN S
              ELSE LET q == SetToSeq(S) IN {q[i] : i \in {j \in 1 .. Len(q) : (j * 7919) % n = Which % n}}

Init == /\ scripts \in Some(Pairs, 2) \cup Some(Doubles, 61) \cup Some(Triples, 13) \cup Some(Games, 13)
        /\ IInit
        /\ order = <<>>

Next == \E i \in I : Move(i) /\ order' = Append(order, i)

Done == \A i \in I : Ended_(i)
Export == Done => PrintT("CASE " \o ToJson([scripts |-> scripts, order |-> order,
             outs |-> [i \in I |-> MapSeq(replies[i], LAMBDA r : r.out)]]))

=============================================================================
