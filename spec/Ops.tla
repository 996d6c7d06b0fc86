-------------------------------- MODULE Ops --------------------------------
(* The exact operations other than basic arithmetic: comparison, classification, rounding to integral
   values, integer conversions, quantum, exponent, min/max, neighbour and remainder functions. *)
EXTENDS Arith

\* integers are records [s, n]: sign and magnitude
Int0(s, n) == [s |-> IF n = Zero0 THEN 0 ELSE s, n |-> n]
RECURSIVE PowN(_, _)
PowN(b, k) == IF k = 0 THEN One ELSE IF k = 1 THEN b ELSE
              LET h == PowN(b, k \div 2) IN IF k % 2 = 0 THEN NMul(h, h) ELSE NMul(b, NMul(h, h))
P31 == PowN(<<2>>, 31)  P32 == PowN(<<2>>, 32)  P63 == PowN(<<2>>, 63)
P64 == PowN(<<2>>, 64)  P127 == PowN(<<2>>, 127) P128 == PowN(<<2>>, 128)
\* does the integer fit the type (C type names as in the op table)?
FitsInt(ty, v) ==
  CASE ty = "si" -> NCmp(v.n, P31) <= (IF v.s = 1 THEN 0 ELSE -1)
    [] ty = "di" -> NCmp(v.n, P63) <= (IF v.s = 1 THEN 0 ELSE -1)
    [] ty = "ti" -> NCmp(v.n, P127) <= (IF v.s = 1 THEN 0 ELSE -1)
    [] ty = "usi" -> v.s = 0 /\ NCmp(v.n, P32) < 0
    [] ty = "udi" -> v.s = 0 /\ NCmp(v.n, P64) < 0
    [] OTHER -> v.s = 0 /\ NCmp(v.n, P128) < 0

\* x is at least 10^60: fits no integer type, and need not be expanded
HugeInt(x) == x.c # Zero0 /\ AdjExp(x) >= 60
(* conversion of a finite number to an integer type in direction m: [ok, v, exact] *)
ToInt(ty, m, x) ==
  IF ~IsFin(x) \/ HugeInt(x) THEN [ok |-> FALSE]
  ELSE LET r == IntMag(m, x)  v == Int0(x.s, r[1]) IN
       IF FitsInt(ty, v) THEN [ok |-> TRUE, v |-> v, exact |-> r[2]] ELSE [ok |-> FALSE]

---------------------------------------------------------------------------
\* comparison
Less(x, y) == ~IsNaN(x) /\ ~IsNaN(y) /\ Cmp(x, y) < 0
Equal(x, y) == ~IsNaN(x) /\ ~IsNaN(y) /\ Cmp(x, y) = 0
Greater(x, y) == ~IsNaN(x) /\ ~IsNaN(y) /\ Cmp(x, y) > 0
Unordered(x, y) == IsNaN(x) \/ IsNaN(y)

\* classification
IsNormal(F, x) == IsFin(x) /\ x.c # Zero0 /\ ~IsSubnormal(F, x)
\* glibc numbers
FP_NAN == 0  FP_INFINITE == 1  FP_ZERO == 2  FP_SUBNORMAL == 3  FP_NORMAL == 4
Classify(F, x) == CASE IsNaN(x) -> FP_NAN [] IsInf(x) -> FP_INFINITE [] IsZero(x) -> FP_ZERO
                    [] IsSubnormal(F, x) -> FP_SUBNORMAL [] OTHER -> FP_NORMAL

---------------------------------------------------------------------------
\* round to integral value in direction m: result, flags if inexact is signalled
RoundIntegral(F, m, x) ==
  IF IsNaN(x) THEN NaNResult(<<x>>)
  ELSE IF IsInf(x) \/ x.e >= 0 THEN Just(x)
  ELSE LET r == IntMag(m, x) IN [d |-> Fin(x.s, r[1], 0), fl |-> IF r[2] THEN {} ELSE {"X"}]

---------------------------------------------------------------------------
\* quantum
Quantize(F, m, x, y) ==
  IF IsNaN(x) \/ IsNaN(y) THEN NaNResult(<<x, y>>)
  ELSE IF IsInf(x) \/ IsInf(y) THEN (IF IsInf(x) /\ IsInf(y) THEN Just(x) ELSE Invalid)
  ELSE IF x.c = Zero0 THEN Just(Fin(x.s, Zero0, y.e))
  ELSE IF x.e >= y.e THEN
         IF NDigits(x.c) + x.e - y.e > F.p THEN Invalid ELSE Just(Fin(x.s, NShl(x.c, x.e - y.e), y.e))
  ELSE LET r == RoundShift(m, x.s, x.c, y.e - x.e, 0) IN
       IF NDigits(r[1]) > F.p THEN Invalid
       ELSE [d |-> Fin(x.s, r[1], y.e), fl |-> IF r[2] THEN {} ELSE {"X"}]
SameQuantum(x, y) == (IsNaN(x) /\ IsNaN(y)) \/ (IsInf(x) /\ IsInf(y)) \/ (IsFin(x) /\ IsFin(y) /\ x.e = y.e)
Quantum(x) == IF IsFin(x) THEN Fin(0, One, x.e) ELSE IF IsInf(x) THEN Inf(0) ELSE x

---------------------------------------------------------------------------
\* x * 10^n; n may be any integer value, given as [s, n]
BigN == 30000
ScaleN(v) == IF NCmp(v.n, NFromInt(BigN)) > 0 THEN (IF v.s = 1 THEN -BigN ELSE BigN)
             ELSE IF v.s = 1 THEN -NToInt(v.n) ELSE NToInt(v.n)
Scale(F, m, x, v) ==
  IF IsNaN(x) THEN NaNResult(<<x>>)
  ELSE IF IsInf(x) THEN Just(x)
  ELSE Round(F, m, x.s, x.c, x.e + ScaleN(v), 0, x.e + ScaleN(v))

---------------------------------------------------------------------------
\* neighbours
NextUpMag(F, c, e) ==     \* next larger magnitude of c*10^e, as <<c, e>> at full precision (or qmin)
  LET k == Max(0, Min(F.p - NDigits(c), e - F.qmin))
      c1 == NAdd(NShl(c, k), One) IN
  <<c1, e - k>>
NextDownMag(F, c, e) ==
  LET k == Max(0, Min(F.p - NDigits(c), e - F.qmin))
      f == NShl(c, k)
      \* a power of ten at full precision: the gap below is ten times smaller
      pw == f = NShl(One, F.p - 1) /\ e - k > F.qmin IN
  IF pw THEN <<NSub(NShl(f, 1), One), e - k - 1>> ELSE <<NSub(f, One), e - k>>
Fits(F, p) == LET c == p[1] e == p[2] IN \* p digits after removing a carry
  IF NDigits(c) > F.p THEN <<NShr(c, 1)[1], e + 1>> ELSE p
NextUp(F, x) ==
  IF IsNaN(x) THEN Quiet(x)
  ELSE IF IsInf(x) THEN (IF x.s = 0 THEN x ELSE MaxFin(F, 1))
  ELSE IF IsZero(x) THEN MinSub(F, 0)
  ELSE IF x.s = 0 THEN LET q == Fits(F, NextUpMag(F, x.c, x.e)) IN IF q[2] > F.qmax THEN Inf(0) ELSE Fin(0, q[1], q[2])
  ELSE LET q == NextDownMag(F, x.c, x.e) IN Fin(1, q[1], q[2])
NextDown(F, x) == IF IsNaN(x) THEN Quiet(x) ELSE Neg(NextUp(F, Neg(x)))

---------------------------------------------------------------------------
\* remainders
\* magnitude remainder: <<remainder coefficient, exponent, quotient is odd, comparison of 2*rem with |y|>>
RemMag(x, y) ==
  LET e == Min(x.e, y.e)
      b == NShl(y.c, y.e - e)
      ab == IF x.c # Zero0 /\ AdjExp(x) + 2 < AdjExp(y) THEN <<Zero0, Zero0>>   \* |x| far below |y|: quotient 0, no expansion
            ELSE NDivMod(NShl(x.c, x.e - e), b)
      far == x.c # Zero0 /\ AdjExp(x) + 2 < AdjExp(y)
  IN IF far THEN [c |-> x.c, e |-> x.e, odd |-> FALSE, half |-> -1, far |-> TRUE]
     ELSE [c |-> ab[2], e |-> e, odd |-> NOdd(ab[1]), half |-> NCmp(NMul(ab[2], <<2>>), b), far |-> FALSE, b |-> b]
FMod(F, x, y) ==
  IF IsNaN(x) \/ IsNaN(y) THEN NaNResult(<<x, y>>)
  ELSE IF IsInf(x) \/ IsZero(y) THEN Invalid
  ELSE IF IsInf(y) \/ IsZero(x) THEN Just(x)
  ELSE LET r == RemMag(x, y) IN Just(Fin(x.s, r.c, r.e))
Remainder(F, x, y) ==
  IF IsNaN(x) \/ IsNaN(y) THEN NaNResult(<<x, y>>)
  ELSE IF IsInf(x) \/ IsZero(y) THEN Invalid
  ELSE IF IsInf(y) \/ IsZero(x) THEN Just(x)
  ELSE LET r == RemMag(x, y) IN
       IF r.half > 0 \/ (r.half = 0 /\ r.odd) THEN Just(Fin(1 - x.s, NSub(r.b, r.c), r.e))
       ELSE Just(Fin(x.s, r.c, r.e))

---------------------------------------------------------------------------
\* 10^n as a datum, sign s (n within range)
Pow10Dec(n) == Fin(0, One, n)
\* integer to datum with exponent 0
IntDec(n) == IF n < 0 THEN Fin(1, NFromInt(-n), 0) ELSE Fin(0, NFromInt(n), 0)
=============================================================================
