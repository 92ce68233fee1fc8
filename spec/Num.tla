-------------------------------- MODULE Num --------------------------------
(* Exact integers of any size.

   A number is the tuple <<sign, limb_1, ..., limb_k>> with sign in {-1,0,1}
   and limbs in base 10000, least significant first, the last one non-zero;
   zero is <<0>>.  The representation is canonical, so = is equality of
   numbers.  TLC's own integers have 32 bits, the dice notation has 64. *)
EXTENDS Integers, Sequences, TLC

BASE == 10000
NZero == <<0>>

---------------------------------------------------------------------------
(* magnitudes: sequences of limbs without trailing zeros *)

RECURSIVE Trim(_)
Trim(m) == IF m # <<>> /\ m[Len(m)] = 0 THEN Trim(SubSeq(m, 1, Len(m) - 1)) ELSE m

Limb(m, i) == IF i <= Len(m) THEN m[i] ELSE 0

Max2(a, b) == IF a > b THEN a ELSE b

RECURSIVE MagCmpAt(_, _, _)
MagCmpAt(a, b, i) ==
  IF i = 0 THEN 0
  ELSE IF a[i] < b[i] THEN -1
  ELSE IF a[i] > b[i] THEN 1
  ELSE MagCmpAt(a, b, i - 1)

MagCmp(a, b) ==
  IF Len(a) < Len(b) THEN -1
  ELSE IF Len(a) > Len(b) THEN 1
  ELSE MagCmpAt(a, b, Len(a))

RECURSIVE MagAddFrom(_, _, _, _, _)
MagAddFrom(a, b, i, carry, acc) ==
  IF i > Max2(Len(a), Len(b))
  THEN IF carry = 0 THEN acc ELSE Append(acc, carry)
  ELSE LET s == Limb(a, i) + Limb(b, i) + carry
       IN MagAddFrom(a, b, i + 1, s \div BASE, Append(acc, s % BASE))
MagAdd(a, b) == MagAddFrom(a, b, 1, 0, <<>>)

RECURSIVE MagSubFrom(_, _, _, _, _)       \* a >= b
MagSubFrom(a, b, i, borrow, acc) ==
  IF i > Len(a) THEN Trim(acc)
  ELSE LET s == a[i] - Limb(b, i) - borrow
       IN IF s < 0 THEN MagSubFrom(a, b, i + 1, 1, Append(acc, s + BASE))
                   ELSE MagSubFrom(a, b, i + 1, 0, Append(acc, s))
MagSub(a, b) == MagSubFrom(a, b, 1, 0, <<>>)

RECURSIVE MagScaleFrom(_, _, _, _, _)     \* a * one limb
MagScaleFrom(a, d, i, carry, acc) ==
  IF i > Len(a) THEN IF carry = 0 THEN Trim(acc) ELSE Append(acc, carry)
  ELSE LET s == a[i] * d + carry
       IN MagScaleFrom(a, d, i + 1, s \div BASE, Append(acc, s % BASE))
MagScale(a, d) == MagScaleFrom(a, d, 1, 0, <<>>)

MagShift(a) == IF a = <<>> THEN <<>> ELSE <<0>> \o a

RECURSIVE MagMulFrom(_, _, _)             \* Horner over b from its top limb
MagMulFrom(a, b, i) ==
  IF i > Len(b) THEN <<>>
  ELSE MagAdd(MagScale(a, b[i]), MagShift(MagMulFrom(a, b, i + 1)))
MagMul(a, b) == MagMulFrom(a, b, 1)

RECURSIVE MagDigit(_, _, _, _)            \* largest q in lo..hi with b*q <= r
MagDigit(r, b, lo, hi) ==
  IF lo = hi THEN lo
  ELSE LET mid == (lo + hi + 1) \div 2
       IN IF MagCmp(MagScale(b, mid), r) <= 0 THEN MagDigit(r, b, mid, hi)
                                              ELSE MagDigit(r, b, lo, mid - 1)

RECURSIVE MagDivFrom(_, _, _, _, _)       \* <<quotient, remainder>>
MagDivFrom(a, b, i, q, r) ==
  IF i = 0 THEN <<Trim(q), r>>
  ELSE LET r1 == Trim(<<a[i]>> \o r)
           d  == IF MagCmp(r1, b) < 0 THEN 0 ELSE MagDigit(r1, b, 1, BASE - 1)
       IN MagDivFrom(a, b, i - 1, <<d>> \o q, MagSub(r1, MagScale(b, d)))
MagDiv(a, b) == MagDivFrom(a, b, Len(a), <<>>, <<>>)

---------------------------------------------------------------------------
(* signed numbers *)

Mag(n) == SubSeq(n, 2, Len(n))
Mk(s, m) == IF m = <<>> THEN NZero ELSE <<s>> \o m

RECURSIVE LimbsOf(_)
LimbsOf(i) == IF i = 0 THEN <<>> ELSE <<i % BASE>> \o LimbsOf(i \div BASE)

N(i) == IF i = 0 THEN NZero
        ELSE IF i > 0 THEN IF i < BASE THEN <<1, i>> ELSE Mk(1, LimbsOf(i))
        ELSE IF i > -BASE THEN <<-1, -i>> ELSE Mk(-1, LimbsOf(-i))

\* numbers of one limb are handled by TLC's integers
IsSmall(n) == Len(n) <= 2
Small(n) == IF Len(n) = 1 THEN 0 ELSE n[1] * n[2]

\* fits a TLC integer with room to spare
IsNat32(n) == Len(n) <= 3
RECURSIVE MagInt(_, _)
MagInt(m, i) == IF i > Len(m) THEN 0 ELSE m[i] + BASE * MagInt(m, i + 1)
ToInt(n) == IF IsSmall(n) THEN Small(n) ELSE n[1] * MagInt(Mag(n), 1)

NNeg(n) == IF n = NZero THEN n ELSE <<-n[1]>> \o Mag(n)
NAbs(n) == IF n[1] < 0 THEN NNeg(n) ELSE n

NCmp(a, b) ==
  IF IsSmall(a) /\ IsSmall(b)
  THEN LET x == Small(a) y == Small(b) IN IF x < y THEN -1 ELSE IF x > y THEN 1 ELSE 0
  ELSE IF a[1] < b[1] THEN -1
  ELSE IF a[1] > b[1] THEN 1
  ELSE a[1] * MagCmp(Mag(a), Mag(b))

NAdd(a, b) ==
  IF IsSmall(a) /\ IsSmall(b) THEN N(Small(a) + Small(b))
  ELSE IF a = NZero THEN b
  ELSE IF b = NZero THEN a
  ELSE IF a[1] = b[1] THEN Mk(a[1], MagAdd(Mag(a), Mag(b)))
  ELSE LET c == MagCmp(Mag(a), Mag(b))
       IN IF c = 0 THEN NZero
          ELSE IF c > 0 THEN Mk(a[1], MagSub(Mag(a), Mag(b)))
          ELSE Mk(b[1], MagSub(Mag(b), Mag(a)))

NSub(a, b) == NAdd(a, NNeg(b))

NMul(a, b) ==
  IF IsSmall(a) /\ IsSmall(b) THEN N(Small(a) * Small(b))
  ELSE IF a = NZero \/ b = NZero THEN NZero
  ELSE Mk(a[1] * b[1], MagMul(Mag(a), Mag(b)))

\* quotient and remainder of the magnitudes, both non-negative numbers
NQuoRem(a, b) ==
  IF IsSmall(a) /\ IsSmall(b)
  THEN LET x == Small(NAbs(a)) y == Small(NAbs(b)) IN <<N(x \div y), N(x % y)>>
  ELSE LET d == MagDiv(Mag(a), Mag(b)) IN <<Mk(1, d[1]), Mk(1, d[2])>>

NSign(a, b) == a[1] * b[1]
NWithSign(s, n) == IF s < 0 THEN NNeg(n) ELSE n

\* The three divisions of the notation (b # 0)
NDivDown(a, b) == NWithSign(NSign(a, b), NQuoRem(a, b)[1])

NDivUp(a, b) ==
  LET qr == NQuoRem(a, b) s == NSign(a, b)
  IN IF qr[2] # NZero /\ s > 0 THEN NAdd(qr[1], N(1)) ELSE NWithSign(s, qr[1])

NDivRound(a, b) ==
  LET qr == NQuoRem(a, b)
      half == NCmp(NAdd(qr[2], qr[2]), NAbs(b)) >= 0
  IN NWithSign(NSign(a, b), IF half THEN NAdd(qr[1], N(1)) ELSE qr[1])

NLt(a, b) == NCmp(a, b) < 0
NLe(a, b) == NCmp(a, b) <= 0

\* Do both numbers stand in the written relation?
NRel(op, a, b) ==
  CASE op = "="  -> a = b
    [] op = "<>" -> a # b
    [] op = "<"  -> NCmp(a, b) < 0
    [] op = "<=" -> NCmp(a, b) <= 0
    [] op = ">"  -> NCmp(a, b) > 0
    [] op = ">=" -> NCmp(a, b) >= 0

MaxI64 == <<1, 5807, 5477, 368, 3372, 922>>
MinI64 == <<-1, 5808, 5477, 368, 3372, 922>>
InI64(n) == IF Len(n) < 6 THEN TRUE ELSE NLe(MinI64, n) /\ NLe(n, MaxI64)

---------------------------------------------------------------------------
(* decimal text *)

Pad4(i) == IF i < 10 THEN "000" \o ToString(i)
           ELSE IF i < 100 THEN "00" \o ToString(i)
           ELSE IF i < 1000 THEN "0" \o ToString(i)
           ELSE ToString(i)

RECURSIVE MagTail(_, _)
MagTail(m, i) == IF i = 0 THEN "" ELSE Pad4(m[i]) \o MagTail(m, i - 1)

NStr(n) ==
  IF n = NZero THEN "0"
  ELSE (IF n[1] < 0 THEN "-" ELSE "") \o ToString(n[Len(n)])
       \o (IF Len(n) = 2 THEN "" ELSE MagTail(Mag(n), Len(n) - 2))

DigitChars == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
DigitVal == ("0" :> 0) @@ ("1" :> 1) @@ ("2" :> 2) @@ ("3" :> 3) @@ ("4" :> 4)
         @@ ("5" :> 5) @@ ("6" :> 6) @@ ("7" :> 7) @@ ("8" :> 8) @@ ("9" :> 9)

\* value of the digits t[i..j]
RECURSIVE NatOf(_, _, _, _)
NatOf(t, i, j, acc) == IF i > j THEN acc ELSE NatOf(t, i + 1, j, acc * 10 + DigitVal[t[i]])

RECURSIVE LimbsOfDigits(_, _, _)
LimbsOfDigits(t, i, j) ==
  IF j < i THEN <<>>
  ELSE LET k == IF j - 3 > i THEN j - 3 ELSE i
       IN <<NatOf(t, k, j, 0)>> \o LimbsOfDigits(t, i, k - 1)

NOfDigits(t, i, j) ==
  IF j - i < 4 THEN N(NatOf(t, i, j, 0)) ELSE Mk(1, Trim(LimbsOfDigits(t, i, j)))
=============================================================================
