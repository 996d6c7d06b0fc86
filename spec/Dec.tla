-------------------------------- MODULE Dec --------------------------------
(* IEEE 754-2008 decimal data and rounding, parametric in the format.
   A decimal is a record [k, s, e, c]: class k, sign s, exponent e and coefficient c (BigNat); the value
   of a finite one is (-1)^s * c * 10^e.  Cohort members (1.0 and 1.00) are different data. *)
EXTENDS Integers, Sequences, FiniteSets, BigNat

FIN == 0  INF == 1  QNAN == 2  SNAN == 3

\* rounding directions, in the order of FE_DEC_*
NEAR == 0  ZERO == 1  UP == 2  DOWN == 3  AWAY == 4
Modes == 0..4

Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a

\* a format: p digits, exponents qmin..qmax of the integral coefficient
F32  == [p |-> 7,  qmin |-> -101,  qmax |-> 90,   w |-> 32]
F64  == [p |-> 16, qmin |-> -398,  qmax |-> 369,  w |-> 64]
F128 == [p |-> 34, qmin |-> -6176, qmax |-> 6111, w |-> 128]
Fmt(w) == IF w = 32 THEN F32 ELSE IF w = 64 THEN F64 ELSE F128

Zero0 == <<>>
One == <<1>>
Nines(p) == NSub(NShl(One, p), One)

Mk(k, s, e, c) == [k |-> k, s |-> s, e |-> e, c |-> c]
Fin(s, c, e) == Mk(FIN, s, e, c)
Inf(s) == Mk(INF, s, 0, Zero0)
QNaN == Mk(QNAN, 0, 0, Zero0)
MaxFin(F, s) == Fin(s, Nines(F.p), F.qmax)
MinSub(F, s) == Fin(s, One, F.qmin)

IsNaN(x) == x.k >= QNAN
IsSNaN(x) == x.k = SNAN
IsInf(x) == x.k = INF
IsFin(x) == x.k = FIN
IsZero(x) == x.k = FIN /\ x.c = Zero0
Neg(x) == [x EXCEPT !.s = 1 - x.s]
Quiet(x) == [x EXCEPT !.k = QNAN]
\* exponent of the leading digit of a finite nonzero number
AdjExp(x) == x.e + NDigits(x.c) - 1
IsSubnormal(F, x) == x.k = FIN /\ x.c # Zero0 /\ AdjExp(x) < F.qmin + F.p - 1
InFormat(F, x) == x.k # FIN \/ (NDigits(x.c) <= F.p /\ x.e >= F.qmin /\ x.e <= F.qmax)

Clamp(F, e) == IF e < F.qmin THEN F.qmin ELSE IF e > F.qmax THEN F.qmax ELSE e

---------------------------------------------------------------------------
\* Comparison of finite magnitudes: -1, 0, 1
CmpMag(x, y) ==
  IF x.c = Zero0 THEN (IF y.c = Zero0 THEN 0 ELSE -1)
  ELSE IF y.c = Zero0 THEN 1
  ELSE LET ax == AdjExp(x)  ay == AdjExp(y) IN
       IF ax < ay THEN -1 ELSE IF ax > ay THEN 1
       ELSE IF x.e = y.e THEN NCmp(x.c, y.c)
       ELSE IF x.e > y.e THEN NCmp(NShl(x.c, x.e - y.e), y.c)
       ELSE NCmp(x.c, NShl(y.c, y.e - x.e))
CmpMagI(x, y) == IF IsInf(x) THEN (IF IsInf(y) THEN 0 ELSE 1) ELSE IF IsInf(y) THEN -1 ELSE CmpMag(x, y)
\* Comparison of numbers (no NaN)
Cmp(x, y) ==
  IF IsZero(x) /\ IsZero(y) THEN 0
  ELSE IF IsZero(x) THEN (IF y.s = 1 THEN 1 ELSE -1)
  ELSE IF IsZero(y) THEN (IF x.s = 1 THEN -1 ELSE 1)
  ELSE IF x.s # y.s THEN (IF x.s = 1 THEN -1 ELSE 1)
  ELSE IF x.s = 0 THEN CmpMagI(x, y) ELSE CmpMagI(y, x)

\* Same number including the sign of zero; any two quiet NaNs are the same
SameValue(x, y) ==
  CASE x.k = QNAN -> y.k = QNAN
    [] x.k = INF -> y.k = INF /\ x.s = y.s
    [] x.k = FIN -> y.k = FIN /\ x.s = y.s /\ CmpMag(x, y) = 0
    [] OTHER -> x.k = y.k
\* Same datum (also exponent)
SameDatum(x, y) == SameValue(x, y) /\ (x.k = FIN => x.e = y.e)

---------------------------------------------------------------------------
\* Rounding.  h: position of the discarded part: 0 nothing, 1 below half, 2 half, 3 above half
Rem(r, drop, st) ==
  IF drop = 0 THEN (IF st = 0 THEN 0 ELSE 1)
  ELSE IF r = Zero0 THEN (IF st = 0 THEN 0 ELSE 1)
  ELSE IF NDigits(r) < drop THEN 1
  ELSE LET k == NCmp(r, NShl(<<5>>, drop - 1)) IN
       IF k < 0 THEN 1 ELSE IF k > 0 THEN 3 ELSE IF st = 0 THEN 2 ELSE 3
RoundsUp(m, s, odd, h) ==
  CASE h = 0 -> FALSE
    [] m = NEAR -> h = 3 \/ (h = 2 /\ odd)
    [] m = ZERO -> FALSE
    [] m = UP -> s = 0
    [] m = DOWN -> s = 1
    [] OTHER -> h >= 2
\* c / 10^drop rounded to an integer: <<integer, exact?>>
RoundShift(m, s, c, drop, st) ==
  LET d == NShr(c, drop)
      h == Rem(d[2], drop, st)
  IN <<IF RoundsUp(m, s, NOdd(d[1]), h) THEN NAdd(d[1], One) ELSE d[1], h = 0>>

OverflowResult(F, m, s) ==
  IF m = ZERO \/ (m = UP /\ s = 1) \/ (m = DOWN /\ s = 0) THEN MaxFin(F, s) ELSE Inf(s)

\* member of the cohort of c*10^e (fits in F) whose exponent is nearest pref
NearestCohort(F, s, c, e, pref) ==
  LET t == Clamp(F, pref) IN
  IF e = t THEN Fin(s, c, e)
  ELSE IF e < t THEN LET k == Min(NTz(c), t - e) IN IF k = 0 THEN Fin(s, c, e) ELSE Fin(s, NShr(c, k)[1], e + k)
  ELSE LET k == Min(F.p - NDigits(c), e - t) IN Fin(s, NShl(c, k), e - k)

(* The exact result is (-1)^s * (c + st*theta) * 10^e with 0 < theta < 1 (st = 1 only if c has more than
   p digits).  Result: datum and flags.  pref is the preferred exponent of an exact result. *)
Round(F, m, s, c, e, st, pref) ==
  IF c = Zero0 /\ st = 0 THEN [d |-> Fin(s, c, Clamp(F, pref)), fl |-> {}]
  ELSE LET nd == NDigits(c)
           drop == Max(Max(nd - F.p, F.qmin - e), 0)
           r == RoundShift(m, s, c, drop, st)
           q == e + drop
           carry == NDigits(r[1]) > F.p
           c1 == IF carry THEN NShr(r[1], 1)[1] ELSE r[1]
           q1 == IF carry THEN q + 1 ELSE q
           tiny == nd + e - 1 < F.qmin + F.p - 1
       IN IF c1 # Zero0 /\ NDigits(c1) + q1 - 1 > F.qmax + F.p - 1
          THEN [d |-> OverflowResult(F, m, s), fl |-> {"O", "X"}]
          ELSE IF r[2] THEN [d |-> NearestCohort(F, s, c1, q1, pref), fl |-> {}]
          ELSE [d |-> Fin(s, c1, q1), fl |-> IF tiny THEN {"U", "X"} ELSE {"X"}]
\* an inexact result has full precision or the least exponent: q1 is then as large as it must be

Invalid == [d |-> QNaN, fl |-> {"I"}]
Just(x) == [d |-> x, fl |-> {}]
\* NaN operands: quiet NaN, invalid if any is signaling
NaNResult(xs) == [d |-> QNaN, fl |-> IF \E i \in 1..Len(xs) : IsSNaN(xs[i]) THEN {"I"} ELSE {}]
AnyNaN(xs) == \E i \in 1..Len(xs) : IsNaN(xs[i])
=============================================================================
