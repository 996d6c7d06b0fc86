----------------------------- MODULE BigNatPure -----------------------------
(* Natural numbers of any size as little-endian sequences of base-10000 limbs without leading
   (i.e. trailing in the sequence) zero limbs; zero is <<>>.  TLC's integers are 32-bit, hence limbs.
   These are the definitions; module BigNat uses them unless the Java accelerator is on the
   class path, and MCBigNat checks the accelerator against them. *)
EXTENDS Integers, Sequences

B == 10000

RECURSIVE PNorm(_)
PNorm(a) == IF a = <<>> THEN a ELSE IF a[Len(a)] = 0 THEN PNorm(SubSeq(a, 1, Len(a) - 1)) ELSE a

Limb(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
PMax(a, b) == IF a > b THEN a ELSE b

RECURSIVE PFromInt(_)
PFromInt(n) == IF n = 0 THEN <<>> ELSE <<n % B>> \o PFromInt(n \div B)

RECURSIVE PCmpAt(_, _, _)
PCmpAt(a, b, i) == IF i = 0 THEN 0 ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE PCmpAt(a, b, i - 1)
PCmp(a, b) == IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1 ELSE PCmpAt(a, b, Len(a))

RECURSIVE PAddC(_, _, _, _)
PAddC(a, b, i, carry) ==
  IF i > PMax(Len(a), Len(b)) THEN (IF carry = 0 THEN <<>> ELSE <<carry>>)
  ELSE LET t == Limb(a, i) + Limb(b, i) + carry IN <<t % B>> \o PAddC(a, b, i + 1, t \div B)
PAdd(a, b) == PAddC(a, b, 1, 0)

RECURSIVE PSubC(_, _, _, _)
PSubC(a, b, i, bor) ==
  IF i > Len(a) THEN <<>>
  ELSE LET t == a[i] - Limb(b, i) - bor IN <<IF t < 0 THEN t + B ELSE t>> \o PSubC(a, b, i + 1, IF t < 0 THEN 1 ELSE 0)
PSub(a, b) == PNorm(PSubC(a, b, 1, 0))        \* a >= b

RECURSIVE PMulSmallC(_, _, _, _)
PMulSmallC(a, d, i, carry) ==
  IF i > Len(a) THEN (IF carry = 0 THEN <<>> ELSE <<carry>>)
  ELSE LET t == a[i] * d + carry IN <<t % B>> \o PMulSmallC(a, d, i + 1, t \div B)
PMulSmall(a, d) == IF d = 0 THEN <<>> ELSE PMulSmallC(a, d, 1, 0)

RECURSIVE PMulAt(_, _, _)
PMulAt(a, b, j) ==
  IF j > Len(b) THEN <<>>
  ELSE LET rest == PMulAt(a, b, j + 1)
           sh == IF rest = <<>> THEN <<>> ELSE <<0>> \o rest
       IN PAdd(PMulSmall(a, b[j]), sh)
PMul(a, b) == IF a = <<>> \/ b = <<>> THEN <<>> ELSE PMulAt(a, b, 1)

Pow10Small(k) == CASE k = 0 -> 1 [] k = 1 -> 10 [] k = 2 -> 100 [] OTHER -> 1000
PPow10(k) == [i \in 1..(k \div 4) |-> 0] \o <<Pow10Small(k % 4)>>
PShl(a, k) == IF a = <<>> THEN a ELSE PMul(a, PPow10(k))

PDigits(a) == IF a = <<>> THEN 0
              ELSE LET t == a[Len(a)] IN 4 * (Len(a) - 1) + (IF t > 999 THEN 4 ELSE IF t > 99 THEN 3 ELSE IF t > 9 THEN 2 ELSE 1)

\* decimal digit number i (1 = least significant)
PDigit(a, i) == (Limb(a, ((i - 1) \div 4) + 1) \div Pow10Small((i - 1) % 4)) % 10

RECURSIVE PCountSub(_, _)
PCountSub(r, b) == IF PCmp(r, b) < 0 THEN <<0, r>> ELSE LET t == PCountSub(PSub(r, b), b) IN <<t[1] + 1, t[2]>>

RECURSIVE PDivAt(_, _, _, _, _)
PDivAt(a, b, i, q, r) ==
  IF i = 0 THEN <<PNorm(q), r>>
  ELSE LET r2 == PAdd(PMulSmall(r, 10), PFromInt(PDigit(a, i)))
           t == PCountSub(PNorm(r2), b)
       IN PDivAt(a, b, i - 1, PAdd(PMulSmall(q, 10), PFromInt(t[1])), t[2])
PDivMod(a, b) == PDivAt(a, b, PDigits(a), <<>>, <<>>)
PShr(a, k) == PDivMod(a, PPow10(k))

RECURSIVE PNewton(_, _)
PNewton(a, x) == LET y == PDivMod(PAdd(x, PDivMod(a, x)[1]), <<2>>)[1] IN IF PCmp(y, x) >= 0 THEN x ELSE PNewton(a, y)
PSqrt(a) == IF a = <<>> THEN a ELSE PNewton(a, PPow10((PDigits(a) + 1) \div 2))

RECURSIVE PTz(_)
PTz(a) == IF a = <<>> THEN 0 ELSE IF a[1] = 0 THEN 4 + PTz(SubSeq(a, 2, Len(a)))
          ELSE IF a[1] % 1000 = 0 THEN 3 ELSE IF a[1] % 100 = 0 THEN 2 ELSE IF a[1] % 10 = 0 THEN 1 ELSE 0

\* digits, most significant first; <<>> for zero
PDigitSeq(a) == [i \in 1..PDigits(a) |-> PDigit(a, PDigits(a) + 1 - i)]
RECURSIVE PFromDigits(_)
PFromDigits(s) ==
  IF Len(s) = 0 THEN <<>>
  ELSE PNorm(LET n == Len(s)
                 D(i) == IF i >= 1 THEN s[i] ELSE 0
             IN [j \in 1..((n + 3) \div 4) |-> LET h == n - 4 * (j - 1) IN D(h) + 10 * D(h - 1) + 100 * D(h - 2) + 1000 * D(h - 3)])
PToInt(a) == LET D(i) == Limb(a, i) IN D(1) + B * D(2)     \* only for numbers < 10^8
=============================================================================
