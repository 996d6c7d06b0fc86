-------------------------------- MODULE Libm --------------------------------
(* The transcendental functions: special values, domain and range errors, and for the other arguments the
   value to within an error bound.  References come from Reals. *)
EXTENDS Ops, Reals
LibmOps == {"exp", "exp2", "expm1", "log", "log2", "log10", "log1p", "cbrt", "sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh",
  "tanh", "asinh", "acosh", "atanh", "erf", "erfc", "lgamma", "tgamma", "pow", "atan2", "hypot"}
Libm2 == {"pow", "atan2", "hypot"}

\* significant digits of references
RefW(F) == F.p + 12

(* result: exactly this number, NaN by domain error, infinity by pole error, or this real to within a bound *)
MExact(d) == [t |-> "x", d |-> d]
MDomain == [t |-> "dom"]
MPole(s) == [t |-> "pole", d |-> Inf(s)]
MReal(r) == [t |-> "r", r |-> r]
MNaN == [t |-> "nan"]
MOneOf(S) == [t |-> "o", S |-> S]

RealOf(x) == R(x.s, x.c, x.e)
PlusOne == Fin(0, <<1>>, 0)
PlusZero == Fin(0, Zero0, 0)
IsInteger(x) == IsFin(x) /\ (x.e >= 0 \/ NTz(x.c) >= -x.e \/ x.c = Zero0)
OddInteger(x) == IsInteger(x) /\ x.c # Zero0 /\ x.e <= 0 /\ NOdd(NShr(x.c, -x.e)[1])
CmpOne(x) == RCmpMag(RealOf(x), ROne)       \* |x| against 1
MagOne(x) == IsFin(x) /\ ~IsZero(x) /\ CmpOne(x) = 0
Signed(s, r) == [r EXCEPT !.s = s]

\* far outside the exponent range of every format: stands for any such number
HugeR(s) == R(s, <<1>>, 30000)
TinyR(s) == R(s, <<1>>, -30000)

\* exponential of a real that may be far out of range
SafeExp(W, x) ==
  IF RIs0(x) THEN ROne ELSE IF RAdj(x) >= 5 THEN (IF x.s = 0 THEN HugeR(0) ELSE TinyR(0)) ELSE RExp(W, x)

Math1(F, f, x) ==
  LET W == RefW(F)
      r == RealOf(x)
      big(n) == RAdj(r) >= n
      tinyarg == RAdj(r) < -(2 * F.p + 20)     \* odd functions: the argument itself, to any precision we look at
  IN
  IF IsNaN(x) THEN MNaN
  ELSE CASE f = "exp" -> IF IsInf(x) THEN (IF x.s = 0 THEN MExact(x) ELSE MExact(PlusZero)) ELSE IF IsZero(x) THEN MExact(PlusOne)
                         ELSE MReal(SafeExp(W, r))
    [] f = "exp2" -> IF IsInf(x) THEN (IF x.s = 0 THEN MExact(x) ELSE MExact(PlusZero)) ELSE IF IsZero(x) THEN MExact(PlusOne)
                         ELSE MReal(IF big(6) THEN SafeExp(W, r) ELSE SafeExp(W, RMul(W + 10, r, LN2(W + 10))))
    [] f = "expm1" -> IF IsInf(x) THEN (IF x.s = 0 THEN MExact(x) ELSE MExact(Neg(PlusOne))) ELSE IF IsZero(x) THEN MExact(x)
                         ELSE IF tinyarg THEN MReal(r)
                         ELSE MReal(IF big(5) THEN (IF x.s = 0 THEN HugeR(0) ELSE Signed(1, ROne)) ELSE RExpm1(W, r))
    [] f \in {"log", "log2", "log10"} ->
         IF IsZero(x) THEN MPole(1) ELSE IF x.s = 1 THEN MDomain ELSE IF IsInf(x) THEN MExact(x)
         ELSE IF MagOne(x) THEN MExact(PlusZero)
         ELSE LET l == RLn(W, r) IN MReal(IF f = "log" THEN l ELSE RDiv(W, l, IF f = "log2" THEN LN2(W) ELSE LN10(W)))
    [] f = "log1p" -> IF IsZero(x) THEN MExact(x) ELSE IF x.s = 1 /\ MagOne(x) THEN MPole(1)
         ELSE IF x.s = 1 /\ (IsInf(x) \/ CmpOne(x) > 0) THEN MDomain ELSE IF IsInf(x) THEN MExact(x)
         ELSE IF tinyarg THEN MReal(r) ELSE MReal(RLog1p(W, r))
    [] f = "cbrt" -> IF IsInf(x) \/ IsZero(x) THEN MExact(x) ELSE MReal(RCbrt(W, r))
    [] f = "sin" -> IF IsInf(x) THEN MDomain ELSE IF IsZero(x) THEN MExact(x) ELSE IF tinyarg THEN MReal(r)
         ELSE MReal(RSin(W, r))
    [] f = "cos" -> IF IsInf(x) THEN MDomain ELSE IF IsZero(x) THEN MExact(PlusOne) ELSE IF tinyarg THEN MReal(ROne)
         ELSE MReal(RCos(W, r))
    [] f = "tan" -> IF IsInf(x) THEN MDomain ELSE IF IsZero(x) THEN MExact(x) ELSE IF tinyarg THEN MReal(r)
         ELSE MReal(RTan(W, r))
    [] f \in {"asin", "acos"} -> IF IsInf(x) \/ (~IsZero(x) /\ CmpOne(x) > 0) THEN MDomain
         ELSE IF f = "asin" THEN (IF IsZero(x) THEN MExact(x) ELSE IF tinyarg THEN MReal(r) ELSE MReal(RAsin(W, r)))
         ELSE IF x.s = 0 /\ MagOne(x) THEN MExact(PlusZero) ELSE IF tinyarg \/ IsZero(x) THEN MReal(RHalf(W, PI(W))) ELSE MReal(RAcos(W, r))
    [] f = "atan" -> IF IsZero(x) THEN MExact(x) ELSE IF IsInf(x) THEN MReal(Signed(x.s, RHalf(W, PI(W)))) ELSE IF tinyarg THEN MReal(r) ELSE MReal(RAtan(W, r))
    [] f = "sinh" -> IF IsZero(x) \/ IsInf(x) THEN MExact(x) ELSE IF tinyarg THEN MReal(r) ELSE IF big(5) THEN MReal(HugeR(x.s)) ELSE MReal(RSinh(W, r))
    [] f = "cosh" -> IF IsInf(x) THEN MExact(Inf(0)) ELSE IF IsZero(x) THEN MExact(PlusOne) ELSE IF tinyarg THEN MReal(ROne) ELSE IF big(5) THEN MReal(HugeR(0)) ELSE MReal(RCosh(W, r))
    [] f = "tanh" -> IF IsZero(x) THEN MExact(x) ELSE IF IsInf(x) THEN MExact(Fin(x.s, <<1>>, 0)) ELSE IF tinyarg THEN MReal(r) ELSE MReal(RTanh(W, r))
    [] f = "asinh" -> IF IsZero(x) \/ IsInf(x) THEN MExact(x) ELSE IF tinyarg THEN MReal(r) ELSE MReal(RAsinh(W, r))
    [] f = "acosh" -> IF IsZero(x) \/ x.s = 1 \/ (IsFin(x) /\ CmpOne(x) < 0) THEN MDomain ELSE IF IsInf(x) THEN MExact(x) ELSE IF MagOne(x) THEN MExact(PlusZero) ELSE MReal(RAcosh(W, r))
    [] f = "atanh" -> IF IsZero(x) THEN MExact(x) ELSE IF IsInf(x) \/ CmpOne(x) > 0 THEN MDomain ELSE IF MagOne(x) THEN MPole(x.s) ELSE IF tinyarg THEN MReal(r) ELSE MReal(RAtanh(W, r))
    [] f = "erf" -> IF IsZero(x) THEN MExact(x) ELSE IF IsInf(x) THEN MExact(Fin(x.s, <<1>>, 0))
         ELSE IF tinyarg THEN MReal(RDiv(W, RTwice(r), RSqrt(W, PI(W)))) ELSE MReal(RErf(W, r))
    [] f = "erfc" -> IF IsZero(x) THEN MExact(PlusOne) ELSE IF IsInf(x) THEN MExact(IF x.s = 1 THEN Fin(0, <<2>>, 0) ELSE PlusZero)
         ELSE IF tinyarg THEN MReal(ROne) ELSE IF big(3) /\ x.s = 0 THEN MReal(TinyR(0)) ELSE MReal(RErfc(W, r))
    [] f = "lgamma" -> IF IsInf(x) THEN MExact(Inf(0)) ELSE IF IsZero(x) \/ (x.s = 1 /\ IsInteger(x)) THEN MPole(0)
         ELSE IF x.s = 0 /\ (MagOne(x) \/ RCmpMag(r, RInt(2)) = 0) THEN MExact(PlusZero)
         ELSE IF tinyarg THEN MReal(RNeg(RLn(W, RAbs(r)))) ELSE MReal(RLnGamma(W + 40, r))
    [] f = "tgamma" -> IF IsZero(x) THEN MPole(x.s) ELSE IF IsInf(x) THEN (IF x.s = 0 THEN MExact(x) ELSE MDomain)
         ELSE IF x.s = 1 /\ IsInteger(x) THEN MDomain
         ELSE IF big(4) THEN MReal(IF x.s = 0 THEN HugeR(0) ELSE TinyR(GammaSign(r)))
         ELSE IF tinyarg THEN MReal(RDiv(W, ROne, r)) ELSE MReal(RGamma(W, r))
    [] OTHER -> MNaN

\* x^y for finite nonzero x, y
PowReal(F, x, y) ==
  LET W == RefW(F)
      s == IF x.s = 1 /\ OddInteger(y) THEN 1 ELSE 0
      a == RAbs(RealOf(x))
      k == CmpOne(x)
  IN IF k = 0 THEN MExact(Fin(s, <<1>>, 0))
     ELSE LET p == RMul(W + 10, RealOf(y), RLn(W + 10, a)) IN
          IF RAdj(p) >= 5 THEN MReal(IF p.s = 0 THEN HugeR(s) ELSE TinyR(s))
          ELSE MReal(Signed(s, RExp(W, p)))
Pow(F, x, y) ==
  IF IsFin(x) /\ x.s = 0 /\ MagOne(x) THEN (IF IsSNaN(y) THEN MOneOf({PlusOne, QNaN}) ELSE MExact(PlusOne))
  ELSE IF IsZero(y) THEN (IF IsSNaN(x) THEN MOneOf({PlusOne, QNaN}) ELSE MExact(PlusOne))
  ELSE IF IsNaN(x) \/ IsNaN(y) THEN MNaN
  ELSE LET s == IF x.s = 1 /\ OddInteger(y) THEN 1 ELSE 0 IN
    IF IsInf(y) THEN
      (IF MagOne(x) THEN MExact(PlusOne)
       ELSE LET large == IsInf(x) \/ (~IsZero(x) /\ CmpOne(x) > 0) IN
            IF large = (y.s = 0) THEN (IF IsZero(x) THEN MOneOf({Inf(0)}) ELSE MExact(Inf(0))) ELSE MExact(PlusZero))
    ELSE IF IsZero(x) THEN (IF y.s = 1 THEN MPole(s) ELSE MExact(Fin(s, Zero0, 0)))
    ELSE IF IsInf(x) THEN (IF y.s = 1 THEN MExact(Fin(s, Zero0, 0)) ELSE MExact(Inf(s)))
    ELSE IF x.s = 1 /\ ~IsInteger(y) THEN MDomain
    ELSE PowReal(F, x, y)

Atan2(F, y, x) ==
  LET W == RefW(F)
      pi == PI(W)
      quarter == RHalf(W, RHalf(W, pi))
  IN
  IF IsNaN(x) \/ IsNaN(y) THEN MNaN
  ELSE IF IsZero(y) THEN (IF x.s = 0 THEN MExact(y) ELSE MReal(Signed(y.s, pi)))
  ELSE IF IsZero(x) THEN MReal(Signed(y.s, RHalf(W, pi)))
  ELSE IF IsInf(y) THEN (IF IsInf(x) THEN MReal(Signed(y.s, IF x.s = 0 THEN quarter ELSE RMul(W, quarter, RInt(3)))) ELSE MReal(Signed(y.s, RHalf(W, pi))))
  ELSE IF IsInf(x) THEN (IF x.s = 0 THEN MExact(Fin(y.s, Zero0, 0)) ELSE MReal(Signed(y.s, pi)))
  ELSE LET q == RAbs(RDiv(W + 4, RealOf(y), RealOf(x)))
           a == IF RAdj(q) < -(3 * F.p) THEN q ELSE AtanPos(W + 4, q)
       IN MReal(Signed(y.s, IF x.s = 0 THEN a ELSE RSub(W, PI(W + 4), a)))
Hypot(F, x, y) ==
  IF IsSNaN(x) \/ IsSNaN(y) THEN (IF IsInf(x) \/ IsInf(y) THEN MOneOf({Inf(0), QNaN}) ELSE MNaN)
  ELSE IF IsInf(x) \/ IsInf(y) THEN MExact(Inf(0))
  ELSE IF IsNaN(x) \/ IsNaN(y) THEN MNaN
  ELSE IF IsZero(x) THEN MExact([y EXCEPT !.s = 0]) ELSE IF IsZero(y) THEN MExact([x EXCEPT !.s = 0])
  ELSE MReal(RHypot(RefW(F), RealOf(x), RealOf(y)))

Math(F, f, x, y) ==
  CASE f = "pow" -> Pow(F, x, y) [] f = "atan2" -> Atan2(F, x, y) [] f = "hypot" -> Hypot(F, x, y) [] OTHER -> Math1(F, f, x)

\* the constants of math.h: e, log2 e, log10 e, ln 2, ln 10, pi, pi/2, pi/4, 1/pi, 2/pi, 2/sqrt pi, sqrt 2, 1/sqrt 2
MathConst(W, k) ==
  CASE k = 1 -> RExp(W, ROne) [] k = 2 -> RDiv(W, ROne, LN2(W + 3)) [] k = 3 -> RDiv(W, ROne, LN10(W + 3)) [] k = 4 -> LN2(W) [] k = 5 -> LN10(W)
    [] k = 6 -> PI(W) [] k = 7 -> RHalf(W, PI(W + 3)) [] k = 8 -> RHalf(W, RHalf(W + 3, PI(W + 3)))
    [] k = 9 -> RDiv(W, ROne, PI(W + 3)) [] k = 10 -> RDiv(W, RInt(2), PI(W + 3)) [] k = 11 -> RDiv(W, RInt(2), RSqrt(W + 3, PI(W + 3)))
    [] k = 12 -> RSqrt(W, RInt(2)) [] OTHER -> RDiv(W, ROne, RSqrt(W + 3, RInt(2)))
---------------------------------------------------------------------------
AbsI(n) == IF n < 0 THEN -n ELSE n
\* Error bounds in tenths of a unit in the last place
\* (for other than the exact cases; twice or more what the pinned library has been seen to do)
\* log: just above 1 the directed modes choose a table entry further away
Bound(F, m, f, x, y, r) ==
  CASE F.p = 34 /\ f \in {"asin", "acos", "erf"} -> 80
    [] F.p = 34 /\ f = "log" -> IF m \notin {NEAR, AWAY} /\ r.s = 0 /\ RAdj(r) < 0 THEN 400 ELSE 30
    [] F.p = 34 /\ f \in {"erfc", "lgamma"} -> 400
    [] F.p = 34 /\ f = "tgamma" -> 400 + 1000 * Min(10000, (IF RIs0(r) THEN 0 ELSE AbsI(RAdj(r)))   \* e^(lgamma x)
                                      + (IF x.s = 0 THEN 0 ELSE IF RAdj(RealOf(x)) > 3 THEN 10000 ELSE 3 * NToInt(RFix(0, RealOf(x)))))
    [] f = "log2" -> 60
    [] OTHER -> 20
\* exponent of the least unit the bound counts: lgamma of negative numbers has zeros between the poles, where only
\* the error relative to its terms is small
UnitFloor(F, f, x) == IF F.p = 34 /\ f = "lgamma" /\ x.s = 1 THEN Max(RAdj(RealOf(x)) + 3, 1) - F.p ELSE F.qmin
\* least magnitude that overflows whatever the rounding, and the unit in the last place of r in F
OverR(F) == R(0, <<1>>, F.qmax + F.p)
UlpExp(F, r) == Max(RAdj(r) - F.p + 1, F.qmin)
\* |d - r| in tenths of an ulp of r is at most b.  Beyond the range everything is at the threshold.
\* The unit is the larger of those of d and r: across a power of ten they differ.
Within(F, d, r, b, fl) ==
  LET over == RCmpMag(r, OverR(F)) >= 0
      rr == IF over THEN OverR(F) ELSE RAbs(r)
      dd == IF IsInf(d) THEN OverR(F) ELSE R(0, d.c, d.e)
      W == 3 * F.p
      u0 == IF RAdj(rr) < F.qmin - 5 THEN F.qmin ELSE UlpExp(F, rr)
      u1 == IF RIs0(dd) THEN u0 ELSE Min(u0 + 1, UlpExp(F, dd))
      u == Max(Max(u0, u1), fl)
      diff == RAbs(RSub(W, dd, rr))
      lim == R(0, NFromInt(b), u - 1)
  IN IF RAdj(rr) < F.qmin - 5 THEN RCmpMag(dd, lim) <= 0 ELSE RCmpMag(diff, lim) <= 0
\* functions bounded by a number: exceeding it is wrong, however little
Ceil(f) == CASE f \in {"sin", "cos", "tanh", "erf"} -> <<1>> [] f = "erfc" -> <<2>> [] OTHER -> <<>>
OverCeil(f, d) == Ceil(f) # <<>> /\ (IsInf(d) \/ RCmpMag(R(0, d.c, d.e), R(0, Ceil(f), 0)) > 0)

MathErrno(F, m, r) ==
  IF RCmpMag(r, OverR(F)) >= 0 THEN (IF m = NEAR THEN {"range"} ELSE {"no", "range"})
  ELSE IF RAdj(r) >= F.qmax + F.p - 1 /\ RCmpMag(r, R(0, NSub(NShl(<<1>>, 6), <<1>>), F.qmax + F.p - 6)) > 0 THEN {"no", "range"}
  ELSE IF RAdj(r) <= F.qmin + F.p - 1 THEN {"no", "range"} ELSE {"no"}
=============================================================================
