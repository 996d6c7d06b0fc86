------------------------------- MODULE Arith -------------------------------
(* Correctly rounded operations: + - * / sqrt fma, format conversions, integer conversions,
   quantize, round to integral. *)
EXTENDS Dec

(* Alignment gap after which the smaller operand only matters as "a little": see MCDec, which checks
   AddFin against the unlimited definition on toy formats. *)
AddExact(F, m, x, y) ==
  LET e == Min(x.e, y.e)
      a == NShl(x.c, x.e - e)
      b == NShl(y.c, y.e - e)
      k == NCmp(a, b)
      same == x.s = y.s
      s == IF same THEN x.s ELSE IF k > 0 THEN x.s ELSE IF k < 0 THEN y.s ELSE IF m = DOWN THEN 1 ELSE 0
      c == IF same THEN NAdd(a, b) ELSE IF k >= 0 THEN NSub(a, b) ELSE NSub(b, a)
  IN Round(F, m, s, c, e, 0, e)
\* x dominates: y is less than 10^(x.e - 2) in magnitude even after giving x full precision plus two digits
AddFar(F, m, x, y) ==
  LET pad == F.p + 2 - NDigits(x.c)
      pad0 == Max(pad, 2)
      c == NShl(x.c, pad0)
      e == x.e - pad0
      pr == Min(x.e, y.e)
  IN IF x.s = y.s THEN Round(F, m, x.s, c, e, 1, pr)
     ELSE Round(F, m, x.s, NSub(c, One), e, 1, pr)
AddFin(F, m, x, y) ==
  IF x.c = Zero0 \/ y.c = Zero0 THEN
    LET pr == Min(x.e, y.e) IN
    IF x.c = Zero0 /\ y.c = Zero0
    THEN Just(Fin(IF x.s = y.s THEN x.s ELSE IF m = DOWN THEN 1 ELSE 0, Zero0, pr))
    ELSE LET z == IF x.c = Zero0 THEN y ELSE x IN Round(F, m, z.s, z.c, z.e, 0, pr)
  ELSE LET gap == 2 * F.p + 6 IN
    IF AdjExp(x) - AdjExp(y) > gap /\ x.e - AdjExp(y) > F.p + 4 THEN AddFar(F, m, x, y)
    ELSE IF AdjExp(y) - AdjExp(x) > gap /\ y.e - AdjExp(x) > F.p + 4 THEN AddFar(F, m, y, x)
    ELSE AddExact(F, m, x, y)
Add(F, m, x, y) ==
  IF IsNaN(x) \/ IsNaN(y) THEN NaNResult(<<x, y>>)
  ELSE IF IsInf(x) THEN (IF IsInf(y) /\ x.s # y.s THEN Invalid ELSE Just(Inf(x.s)))
  ELSE IF IsInf(y) THEN Just(Inf(y.s))
  ELSE AddFin(F, m, x, y)
Sub(F, m, x, y) == IF IsNaN(y) THEN Add(F, m, x, y) ELSE Add(F, m, x, Neg(y))

Mul(F, m, x, y) ==
  LET s == (x.s + y.s) % 2 IN
  IF IsNaN(x) \/ IsNaN(y) THEN NaNResult(<<x, y>>)
  ELSE IF IsInf(x) \/ IsInf(y) THEN (IF IsZero(x) \/ IsZero(y) THEN Invalid ELSE Just(Inf(s)))
  ELSE Round(F, m, s, NMul(x.c, y.c), x.e + y.e, 0, x.e + y.e)

\* quotient of coefficients with at least n digits: <<c, exponent shift, sticky>>
Quot(a, b, n) ==
  LET k == Max(0, n + NDigits(b) - NDigits(a))
      d == NDivMod(NShl(a, k), b)
  IN <<d[1], k, IF d[2] = Zero0 THEN 0 ELSE 1>>
Div(F, m, x, y) ==
  LET s == (x.s + y.s) % 2 IN
  IF IsNaN(x) \/ IsNaN(y) THEN NaNResult(<<x, y>>)
  ELSE IF IsInf(x) THEN (IF IsInf(y) THEN Invalid ELSE Just(Inf(s)))
  ELSE IF IsInf(y) THEN Just(Fin(s, Zero0, F.qmin))
  ELSE IF IsZero(y) THEN (IF IsZero(x) THEN Invalid ELSE [d |-> Inf(s), fl |-> {"Z"}])
  ELSE IF IsZero(x) THEN Just(Fin(s, Zero0, Clamp(F, x.e - y.e)))
  ELSE LET q == Quot(x.c, y.c, F.p + 2) IN Round(F, m, s, q[1], x.e - y.e - q[2], q[3], x.e - y.e)

FloorDiv2(e) == e \div 2           \* TLA+ \div is floor division
Sqrt(F, m, x) ==
  IF IsNaN(x) THEN NaNResult(<<x>>)
  ELSE IF IsZero(x) THEN Just(Fin(x.s, Zero0, FloorDiv2(x.e)))
  ELSE IF x.s = 1 THEN Invalid
  ELSE IF IsInf(x) THEN Just(x)
  ELSE LET k0 == Max(0, 2 * (F.p + 2) - NDigits(x.c))
           k == IF (x.e - k0) % 2 = 0 THEN k0 ELSE k0 + 1
           c == NShl(x.c, k)
           r == NSqrt(c)
           st == IF NMul(r, r) = c THEN 0 ELSE 1
       IN Round(F, m, 0, r, (x.e - k) \div 2, st, FloorDiv2(x.e))

\* x*y + z, one rounding.  The product is a datum of unlimited precision.
Fma(F, m, x, y, z) ==
  LET ps == (x.s + y.s) % 2 IN
  IF AnyNaN(<<x, y, z>>) THEN NaNResult(<<x, y, z>>)
  ELSE IF (IsInf(x) /\ IsZero(y)) \/ (IsZero(x) /\ IsInf(y)) THEN Invalid
  ELSE IF IsInf(x) \/ IsInf(y) THEN (IF IsInf(z) /\ z.s # ps THEN Invalid ELSE Just(Inf(ps)))
  ELSE IF IsInf(z) THEN Just(z)
  ELSE LET q == Fin(ps, NMul(x.c, y.c), x.e + y.e) IN
       IF IsZero(q) /\ IsZero(z) THEN Just(Fin(IF ps = z.s THEN ps ELSE IF m = DOWN THEN 1 ELSE 0, Zero0, Clamp(F, Min(q.e, z.e))))
       ELSE LET G == [F EXCEPT !.p = 2 * F.p] IN
            \* far rule needs room for the double-length product
            IF ~IsZero(q) /\ ~IsZero(z) /\ AdjExp(q) - AdjExp(z) > 4 * F.p + 6 /\ q.e - AdjExp(z) > F.p + 4 THEN AddFar(F, m, q, z)
            ELSE IF ~IsZero(q) /\ ~IsZero(z) /\ AdjExp(z) - AdjExp(q) > 4 * F.p + 6 /\ z.e - AdjExp(q) > F.p + 4 THEN AddFar(F, m, z, q)
            ELSE IF IsZero(q) \/ IsZero(z) THEN AddFin(F, m, q, z)
            ELSE AddExact(F, m, q, z)

\* conversion to format F
Convert(F, m, x) ==
  IF IsNaN(x) THEN NaNResult(<<x>>)
  ELSE IF IsInf(x) THEN Just(x)
  ELSE Round(F, m, x.s, x.c, x.e, 0, x.e)

\* integer (sign, magnitude) to format F
FromInt(F, m, s, n) == Round(F, m, s, n, 0, 0, 0)

\* magnitude of x rounded to an integer in direction m: <<integer, exact?>>
IntMag(m, x) ==
  IF x.e >= 0 THEN <<NShl(x.c, x.e), TRUE>>
  ELSE RoundShift(m, x.s, x.c, -x.e, 0)
=============================================================================
