---------------------------------- MODULE Mt ----------------------------------
(* The 64-bit Mersenne Twister, and dice made of its words.

   A word is <<l0, l1, l2, l3>>, limbs of 16 bits, the lowest first.  A generator
   is [x |-> 312 words, i |-> number of words of them already delivered].      *)
EXTENDS Num, Bitwise, SequencesExt

NN == 312
MM == 156
LIMB == 65536

Pow2 == [k \in 0 .. 30 |-> 2 ^ k]

W4(a, b, c, d) == <<a, b, c, d>>
Limb16(w, i) == IF i < 1 \/ i > 4 THEN 0 ELSE w[i]

WXor(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2], a[3] ^^ b[3], a[4] ^^ b[4]>>
WAnd(a, b) == <<a[1] & b[1], a[2] & b[2], a[3] & b[3], a[4] & b[4]>>

\* shifts by n bits: q whole limbs and r bits of a limb
WShr(w, n) ==
  LET q == n \div 16
      r == n % 16
      f(i) == Limb16(w, i + q) \div Pow2[r] + (Limb16(w, i + q + 1) % Pow2[r]) * Pow2[16 - r]
  IN <<f(1), f(2), f(3), f(4)>>
WShl(w, n) ==
  LET q == n \div 16
      r == n % 16
      f(i) == (Limb16(w, i - q) % Pow2[16 - r]) * Pow2[r] + Limb16(w, i - q - 1) \div Pow2[16 - r]
  IN <<f(1), f(2), f(3), f(4)>>

WAdd(a, b) ==
  LET s1 == a[1] + b[1]
      s2 == a[2] + b[2] + s1 \div LIMB
      s3 == a[3] + b[3] + s2 \div LIMB
      s4 == a[4] + b[4] + s3 \div LIMB
  IN <<s1 % LIMB, s2 % LIMB, s3 % LIMB, s4 % LIMB>>

\* w * d for d below 2^8
WScale(w, d) ==
  LET s1 == w[1] * d
      s2 == w[2] * d + s1 \div LIMB
      s3 == w[3] * d + s2 \div LIMB
      s4 == w[4] * d + s3 \div LIMB
  IN <<s1 % LIMB, s2 % LIMB, s3 % LIMB, s4 % LIMB>>

\* w * (the number with bytes bs, the highest first)
WMulBytes(w, bs) == FoldLeft(LAMBDA acc, d : WAdd(WScale(acc, 256), WScale(w, d)), <<0, 0, 0, 0>>, bs)

\* 6364136223846793005 = 58 51 F4 2D 4C 95 7F 2D
SeedFactor == <<88, 81, 244, 45, 76, 149, 127, 45>>

SeedNext(p, i) == WAdd(WMulBytes(WXor(p, WShr(p, 62)), SeedFactor), <<i, 0, 0, 0>>)
\* x[i + 1] is made of x[i]
SeedWords(seed) == FoldLeft(LAMBDA x, i : Append(x, SeedNext(x[i], i)), <<seed>>, [i \in 1 .. NN - 1 |-> i])

Seeded(seed) == [x |-> SeedWords(seed), i |-> NN]

\* B502 6F5A A966 19E9
MatrixA == <<6633, 43366, 28506, 46338>>
WZero == <<0, 0, 0, 0>>

\* the upper 33 bits of a and the lower 31 bits of b
Mixed(a, b) == <<b[1], (b[2] % 32768) + (a[2] \div 32768) * 32768, a[3], a[4]>>
Step(far, a, b) ==
  LET y == Mixed(a, b)
  IN WXor(WXor(far, WShr(y, 1)), IF y[1] % 2 = 1 THEN MatrixA ELSE WZero)

\* The next 312 words.  (SubSeq makes TLC compute the three parts once.)
Twist(x) ==
  LET p1 == SubSeq([i \in 1 .. NN - MM |-> Step(x[i + MM], x[i], x[i + 1])], 1, NN - MM)
      p2 == SubSeq([i \in 1 .. NN - MM - 1 |-> Step(p1[i], x[i + NN - MM], x[i + NN - MM + 1])], 1, NN - MM - 1)
  IN p1 \o p2 \o <<Step(p1[MM], x[NN], p1[1])>>

\* 5555555555555555, 71D67FFFEDA60000, FFF7EEE000000000
TemperB == <<21845, 21845, 21845, 21845>>
TemperC == <<0, 60838, 32767, 29142>>
TemperD == <<0, 0, 61152, 65527>>
Temper(w) ==
  LET a == WXor(w, WAnd(WShr(w, 29), TemperB))
      b == WXor(a, WAnd(WShl(a, 17), TemperC))
      c == WXor(b, WAnd(WShl(b, 37), TemperD))
  IN WXor(c, WShr(c, 43))

Ready(g) == IF g.i = NN THEN [x |-> Twist(g.x), i |-> 0] ELSE g
\* of a ready generator
Word(g) == Temper(g.x[g.i + 1])
Passed(g) == [g EXCEPT !.i = @ + 1]

RECURSIVE Skip(_, _)
Skip(g, n) ==
  IF n = 0 THEN g
  ELSE LET h == Ready(g)
           k == IF n < NN - h.i THEN n ELSE NN - h.i
       IN Skip([h EXCEPT !.i = @ + k], n - k)

---------------------------------------------------------------------------
(* Dice: a word becomes one of 0 .. n-1 so that all are equally likely; words
   that would give some values more than their share are passed over.          *)

\* Of a range of `size` equally likely values 0 .. size-1 (size a power of two,
\* n <= size): is v to be used, and what for?
UseSmall(v, n, size) == v <= size - 1 - (size % n)
MapSmall(v, n) == v % n

\* 2^31 is beyond TLC's integers: 2^31 - 1 = Top31
Top31 == 2147483647
Use31(v, n) == LET r == (Top31 % n) + 1 IN v <= Top31 - (IF r = n THEN 0 ELSE r)

High31(w) == (w[4] % 32768) * LIMB + w[3]

\* low 63 bits as a number
NLow63(w) == NAdd(NMul(NAdd(NMul(NAdd(NMul(N(w[4] % 32768), N(LIMB)), N(w[3])), N(LIMB)), N(w[2])), N(LIMB)), N(w[1]))
TwoTo63 == NAdd(MaxI64, N(1))
Use63(v, n) == NLt(v, NSub(TwoTo63, NQuoRem(TwoTo63, n)[2]))

\* as a TLC integer (at most 2^31 - 1)
RECURSIVE MagInt32(_, _)
MagInt32(m, i) == IF i > Len(m) THEN 0 ELSE m[i] + BASE * MagInt32(m, i + 1)
ToInt32(n) == MagInt32(Mag(n), 1)

\* The next die with n faces (n a positive number): value and generator.
RECURSIVE NextDie(_, _)
NextDie(g0, n) ==
  LET g == Ready(g0)
      w == Word(g)
  IN IF NLe(n, N(Top31))
     THEN LET m == ToInt32(n) v == High31(w)
          IN IF Use31(v, m) THEN [v |-> N((v % m) + 1), g |-> Passed(g)] ELSE NextDie(Passed(g), n)
     ELSE LET v == NLow63(w)
          IN IF Use63(v, n) THEN [v |-> NAdd(NQuoRem(v, n)[2], N(1)), g |-> Passed(g)] ELSE NextDie(Passed(g), n)
=============================================================================
