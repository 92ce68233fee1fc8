-------------------------------- MODULE MCMt --------------------------------
(* The generator against the published values of mt19937-64.c, and the fairness
   of making dice of words, decided for all small word sizes and face counts.  *)
EXTENDS Mt, FiniteSets

VARIABLES what, size, n
vars == <<what, size, n>>

Sizes == {2, 4, 8, 16, 32, 64, 128}

Init == \/ what = "fair" /\ size \in Sizes /\ n \in 1 .. size
        \/ what = "stream" /\ size = 1 /\ n = 1
Next == FALSE /\ UNCHANGED vars

\* every face is reached, and by equally many words; fewer than half are passed over
Fair ==
  what = "fair" =>
    LET used == {v \in 0 .. size - 1 : UseSmall(v, n, size)}
        share == Cardinality(used) \div n
    IN /\ \A k \in 0 .. n - 1 : Cardinality({v \in used : MapSmall(v, n) = k}) = share
       /\ share >= 1
       /\ 2 * Cardinality(used) > size

\* Use31 and Use63 are UseSmall for 2^31 and 2^63
Same ==
  what = "fair" =>
    LET k == n + (size - 1) * 7
        r31 == (Top31 % k) + 1
    IN /\ (r31 = k \/ ~Use31(Top31 - r31 + 1, k))
       /\ Use31(Top31 - (IF r31 = k THEN 0 ELSE r31), k)
       /\ LET q == NMul(N(k), N(1000000007))
              lim == NSub(TwoTo63, NQuoRem(TwoTo63, q)[2])
          IN NQuoRem(lim, q)[2] = NZero /\ Use63(NSub(lim, N(1)), q) /\ ~Use63(lim, q)

\* 14514284786278117030 = C96D191CF6F6AEA6 and 9981545732273789042 = 8A8592F5817ED872
\* are the 1st and the 10000th number of the generator seeded with 5489
Published ==
  what = "stream" =>
    LET s == Seeded(<<5489, 0, 0, 0>>)
        a == Ready(s)
        b == Ready(Skip(a, 9999))
    IN /\ Word(a) = <<44710, 63222, 6428, 51565>>
       /\ Word(b) = <<55410, 33150, 37621, 35461>>
       /\ Skip(Skip(a, 500), 200) = Skip(a, 700)
=============================================================================
