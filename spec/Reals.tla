------------------------------- MODULE Reals -------------------------------
(* Approximate real arithmetic and the elementary functions, as references for the transcendental functions
   of the library.  A real is [s, c, e]: (-1)^s * c * 10^e with a BigNat c.  Every operation takes the number
   W of significant digits to keep and truncates; relative errors are a few units of the W-th digit (times
   the condition of the function), which callers allow for with guard digits.
   Fixed point values with S decimals are plain BigNats. *)
EXTENDS Integers, Sequences, BigNat, PiDigits
LOCAL RMax(a, b) == IF a > b THEN a ELSE b

R(s, c, e) == [s |-> s, c |-> c, e |-> e]
RZero == R(0, <<>>, 0)
ROne == R(0, <<1>>, 0)
RInt(n) == IF n < 0 THEN R(1, NFromInt(-n), 0) ELSE R(0, NFromInt(n), 0)
RIs0(x) == x.c = <<>>
RNeg(x) == [x EXCEPT !.s = 1 - x.s]
RAbs(x) == [x EXCEPT !.s = 0]
RAdj(x) == x.e + NDigits(x.c) - 1          \* exponent of the leading digit
RCut(W, x) == LET n == NDigits(x.c) IN IF n <= W THEN x ELSE R(x.s, NShr(x.c, n - W)[1], x.e + n - W)
RMul(W, x, y) == RCut(W, R((x.s + y.s) % 2, NMul(x.c, y.c), x.e + y.e))
RDiv(W, x, y) ==
  IF RIs0(x) THEN x ELSE
  LET k == RMax(0, W + 1 + NDigits(y.c) - NDigits(x.c)) IN
  RCut(W, R((x.s + y.s) % 2, NDivMod(NShl(x.c, k), y.c)[1], x.e - y.e - k))
LOCAL RAddA(x, y) ==                     \* exact; exponents are close
  LET e == IF x.e < y.e THEN x.e ELSE y.e
      a == NShl(x.c, x.e - e)  b == NShl(y.c, y.e - e) IN
  IF x.s = y.s THEN R(x.s, NAdd(a, b), e)
  ELSE IF NCmp(a, b) >= 0 THEN R(x.s, NSub(a, b), e) ELSE R(y.s, NSub(b, a), e)
RAdd(W, x, y) ==
  IF RIs0(x) THEN y ELSE IF RIs0(y) THEN x
  ELSE IF RAdj(x) - RAdj(y) > 2 * W + 90 THEN x
  ELSE IF RAdj(y) - RAdj(x) > 2 * W + 90 THEN y
  ELSE RCut(W, RAddA(x, y))
RSub(W, x, y) == RAdd(W, x, RNeg(y))
RHalf(W, x) == RMul(W, x, R(0, <<5>>, -1))
RTwice(x) == R(x.s, NAdd(x.c, x.c), x.e)
RCmpMag(x, y) ==
  IF RIs0(x) THEN (IF RIs0(y) THEN 0 ELSE -1) ELSE IF RIs0(y) THEN 1
  ELSE LET a == RAdj(x)  b == RAdj(y) IN
       IF a # b THEN (IF a < b THEN -1 ELSE 1)
       ELSE LET e == IF x.e < y.e THEN x.e ELSE y.e IN NCmp(NShl(x.c, x.e - e), NShl(y.c, y.e - e))
RSqrt(W, x) ==
  IF RIs0(x) THEN x ELSE
  LET k0 == RMax(0, 2 * W + 2 - NDigits(x.c))
      k == IF (x.e - k0) % 2 = 0 THEN k0 ELSE k0 + 1
  IN RCut(W, R(0, NSqrt(NShl(x.c, k)), (x.e - k) \div 2))
\* fixed point value of |x| with S decimals
RFix(S, x) == IF x.e + S >= 0 THEN NShl(x.c, x.e + S) ELSE IF -(x.e + S) >= NDigits(x.c) THEN <<>> ELSE NShr(x.c, -(x.e + S))[1]
FMulS(S, a, b) == NShr(NMul(a, b), S)[1]
FDivI(a, n) == NDivMod(a, NFromInt(n))[1]

---------------------------------------------------------------------------
\* series in fixed point with S decimals; z = 10^S * argument
RECURSIVE AtanhB(_, _, _, _, _)    \* 1 + z/3 + z^2/5 + ...   (z = t^2)
AtanhB(S, z, p, k, acc) == IF p = <<>> THEN acc ELSE AtanhB(S, z, FMulS(S, p, z), k + 2, NAdd(acc, FDivI(p, k)))
RECURSIVE AtanB(_, _, _, _, _)     \* 1 - z/3 + z^2/5 - ...
AtanB(S, z, p, k, acc) == IF p = <<>> THEN acc ELSE AtanB(S, z, FMulS(S, p, z), k + 2, IF k % 4 = 1 THEN NAdd(acc, FDivI(p, k)) ELSE NSub(acc, FDivI(p, k)))
RECURSIVE ExpB(_, _, _, _, _)      \* 1 + z + z^2/2 + ...     p = z^k/k!
ExpB(S, z, p, k, acc) == IF p = <<>> THEN acc ELSE ExpB(S, z, FDivI(FMulS(S, p, z), k + 1), k + 1, NAdd(acc, p))
RECURSIVE SinB(_, _, _, _, _)      \* 1 - z/6 + z^2/120 - ... (from k = 1);  cosine from k = 0
SinB(S, z, p, k, acc) == IF p = <<>> THEN acc
  ELSE SinB(S, z, NDivMod(FMulS(S, p, z), NFromInt((k + 1) * (k + 2)))[1], k + 2, IF k % 4 < 2 THEN NAdd(acc, p) ELSE NSub(acc, p))
FOne(S) == NShl(<<1>>, S)
AtanhS(S, z) == AtanhB(S, z, FOne(S), 1, <<>>)
AtanS(S, z) == AtanB(S, z, FOne(S), 1, <<>>)
ExpS(S, z) == ExpB(S, z, FOne(S), 0, <<>>)
SinS(S, z) == SinB(S, z, FOne(S), 1, <<>>)
CosS(S, z) == SinB(S, z, FOne(S), 0, <<>>)

---------------------------------------------------------------------------
\* constants with CS decimals
CS == 320
LOCAL InvSq(n) == FDivI(FOne(CS + 5), n * n)
LOCAL AtanhInv(n) == FDivI(AtanhS(CS + 5, InvSq(n)), n)
LOCAL AtanInv(n) == FDivI(AtanS(CS + 5, InvSq(n)), n)
LOCAL NTimes(n, a) == NMul(NFromInt(n), a)
LN2C == NShr(NTimes(2, AtanhInv(3)), 5)[1]
LN10C == NShr(NAdd(NTimes(6, AtanhInv(3)), NTimes(2, AtanhInv(9))), 5)[1]
PIC == NShr(NSub(NTimes(16, AtanInv(5)), NTimes(4, AtanInv(239))), 5)[1]
LN2(W) == RCut(W, R(0, LN2C, -CS))
LN10(W) == RCut(W, R(0, LN10C, -CS))
PI(W) == RCut(W, R(0, PIC, -CS))
CFix(c, S) == NShr(c, CS - S)[1]

---------------------------------------------------------------------------
RECURSIVE SqTimes(_, _, _)
SqTimes(S, a, n) == IF n = 0 THEN a ELSE SqTimes(S, FMulS(S, a, a), n - 1)
\* e^|x| for |x| < 10^6
ExpAbs(W, x) ==
  LET S == W + 12
      d == NDivMod(RFix(S, x), CFix(LN10C, S))
      y == SqTimes(S, ExpS(S, FDivI(d[2], 256)), 8)
  IN RCut(W, R(0, y, NToInt(d[1]) - S))
RExp(W, x) == IF x.s = 0 \/ RIs0(x) THEN ExpAbs(W, x) ELSE RDiv(W, ROne, ExpAbs(W, x))
\* e^x - 1
RExpm1(W, x) ==
  IF RIs0(x) THEN x
  ELSE IF RAdj(x) >= -1 THEN RSub(W, RExp(W + 3, x), ROne)
  ELSE \* x (1 + x/2 + x^2/6 + ...)
       LET S == W + 4
           B[k \in 1..(W + 4)] == IF k = W + 4 THEN ROne ELSE RAdd(W, ROne, RDiv(W, RMul(W, x, B[k + 1]), RInt(k + 1)))
           n == RMax(2, (W + 4) \div (-RAdj(x)))
           T[k \in 1..(n + 1)] == IF k = n + 1 THEN ROne ELSE RAdd(W, ROne, RDiv(W, RMul(W, x, T[k + 1]), RInt(k + 1)))
       IN RMul(W, x, T[1])
\* 2 atanh t for |t| < 1/2
AtanhR2(W, t) == LET S == W + 6 IN RMul(W, RTwice(t), R(0, AtanhS(S, RFix(S, RMul(W + 6, t, t))), -S))
RECURSIVE SqrtN(_, _, _)
SqrtN(W, x, n) == IF n = 0 THEN x ELSE SqrtN(W, RSqrt(W, x), n - 1)
\* ln (1 + x), x > -1; exact when 1 + x fits, and accurate near 0
RLn(W, x) ==    \* x > 0
  LET d == RSub(3 * W, x, ROne) IN
  IF RIs0(d) THEN RZero
  ELSE IF RAdj(d) < -1 THEN AtanhR2(W, RDiv(W, d, RAdd(3 * W, x, ROne)))
  ELSE LET V == W + 8
           k == RAdj(x)
           m == SqrtN(V, R(0, x.c, x.e - k), 5)
           l == AtanhR2(V, RDiv(V, RSub(V, m, ROne), RAdd(V, m, ROne)))
       IN RAdd(W, RMul(V, l, RInt(32)), RMul(V, RInt(k), LN10(V)))
RLog1p(W, x) ==
  IF RIs0(x) THEN x
  ELSE IF RAdj(x) < -1 THEN AtanhR2(W, RDiv(W, x, RAdd(3 * W, x, RInt(2))))
  ELSE RLn(W, RAdd(4 * W, x, ROne))
\* arc tangent of x > 0
RECURSIVE AtanHalve(_, _, _)
AtanHalve(W, x, n) == IF n = 0 THEN x ELSE AtanHalve(W, RDiv(W, x, RAdd(W, ROne, RSqrt(W, RAdd(W, ROne, RMul(W, x, x))))), n - 1)
LOCAL Atan1(W, x) ==
  LET V == W + 6
      y == AtanHalve(V, x, 3)
  IN RMul(W, RMul(V, y, RInt(8)), R(0, AtanS(V, RFix(V, RMul(V, y, y))), -V))
AtanPos(W, x) == IF RAdj(x) < 0 THEN Atan1(W, x) ELSE RSub(W, RHalf(W + 3, PI(W + 3)), Atan1(W + 3, RDiv(W + 3, ROne, x)))
RAtan(W, x) == IF RIs0(x) THEN x ELSE [AtanPos(W, RAbs(x)) EXCEPT !.s = x.s]
\* sine and cosine of 0 <= r < 1
SinSmall(W, r) == LET S == W + 6 IN RMul(W, r, R(0, SinS(S, RFix(S, RMul(S, r, r))), -S))
CosSmall(W, r) == LET S == W + 6 IN RCut(W, R(0, CosS(S, RFix(S, RMul(S, r, r))), -S))
\* |x| = q * pi/2 + r, 0 <= r < pi/2:  <<q mod 4, r, pi/2 - r>>, each to W digits however close to zero
TrigRed(W, x) ==
  IF RIs0(x) \/ RAdj(x) < -1 THEN <<0, RAbs(x), RSub(W, RHalf(W + 2, PI(W + 2)), RAbs(x))>>
  ELSE LET S == W + 60 + RMax(0, RAdj(x))
           pi == IF S <= CS THEN CFix(PIC, S) ELSE NShr(PiLong, PiScale - S)[1]
           d == NDivMod(NMul(RFix(S, x), <<2>>), pi)
           q == NDivMod(d[1], <<4>>)[2]
       IN <<NToInt(q), RHalf(W, R(0, d[2], -S)), RHalf(W, R(0, NSub(pi, d[2]), -S))>>
\* <<sin |x|, cos |x|>>
SinCos(W, x) ==
  LET t == TrigRed(W + 2, x)
      swap == RCmpMag(t[2], t[3]) > 0
      u == IF swap THEN t[3] ELSE t[2]
      s0 == IF swap THEN CosSmall(W, u) ELSE SinSmall(W, u)
      c0 == IF swap THEN SinSmall(W, u) ELSE CosSmall(W, u)
  IN CASE t[1] = 0 -> <<s0, c0>> [] t[1] = 1 -> <<c0, RNeg(s0)>>
       [] t[1] = 2 -> <<RNeg(s0), RNeg(c0)>> [] OTHER -> <<RNeg(c0), s0>>
Odd1(x, y) == IF x.s = 1 THEN RNeg(y) ELSE y
RSin(W, x) == Odd1(x, SinCos(W, x)[1])
RCos(W, x) == SinCos(W, x)[2]
RTan(W, x) == LET t == SinCos(W, x) IN Odd1(x, RDiv(W, t[1], t[2]))
\* |x| <= 1 exactly representable
RAsin(W, x) ==
  LET q == RMul(4 * W, RSub(4 * W, ROne, x), RAdd(4 * W, ROne, x)) IN
  IF RIs0(q) THEN [RHalf(W, PI(W)) EXCEPT !.s = x.s] ELSE RAtan(W, RDiv(W, x, RSqrt(W + 2, q)))
RAcos(W, x) ==
  LET q == RAdd(4 * W, ROne, x) IN
  IF RIs0(q) THEN PI(W) ELSE RTwice(RAtan(W, RSqrt(W, RDiv(2 * W, RSub(4 * W, ROne, x), q))))
RSinh(W, x) ==
  LET E == RExpm1(W + 2, RAbs(x)) IN
  Odd1(x, RHalf(W, RAdd(W + 2, E, RDiv(W + 2, E, RAdd(W + 2, E, ROne)))))
RCosh(W, x) == LET E == ExpAbs(W + 2, x) IN RHalf(W, RAdd(W + 2, E, RDiv(W + 2, ROne, E)))
RTanh(W, x) ==
  IF ~RIs0(x) /\ RAdj(x) >= 3 THEN R(x.s, <<1>>, 0)
  ELSE LET E == RExpm1(W + 2, RTwice(RAbs(x))) IN Odd1(x, RDiv(W, E, RAdd(W + 2, E, RInt(2))))
RAsinh(W, x) ==
  LET a == RAbs(x)  q == RMul(2 * W, a, a) IN
  Odd1(x, RLog1p(W, RAdd(W + 2, a, RDiv(W + 2, q, RAdd(W + 2, ROne, RSqrt(W + 2, RAdd(2 * W, ROne, q)))))))
RAcosh(W, x) == LET t == RSub(3 * W, x, ROne) IN RLog1p(W, RAdd(W + 2, t, RSqrt(W + 2, RAdd(2 * W, RTwice(t), RMul(2 * W, t, t)))))
RAtanh(W, x) ==
  LET a == RAbs(x) IN Odd1(x, RHalf(W, RLog1p(W, RDiv(W + 2, RTwice(a), RSub(4 * W, ROne, a)))))
RCbrt(W, x) == IF RIs0(x) THEN x ELSE
  LET k == RAdj(x) \div 3  a == R(0, x.c, x.e - 3 * k) IN
  LET y == RExp(W, RDiv(W + 2, RLn(W + 2, a), RInt(3))) IN R(x.s, y.c, y.e + k)
RHypot(W, x, y) == RSqrt(W, RAdd(2 * W, RMul(2 * W, x, x), RMul(2 * W, y, y)))
\* x^y, x > 0
RPow(W, x, y) == RExp(W, RMul(W + 10, y, RLn(W + 10, x)))

---------------------------------------------------------------------------
\* error function of x > 0:  2/sqrt(pi) e^(-x^2) (x + 2x^3/3 + 4x^5/15 + ...)
RECURSIVE ErfB(_, _, _, _, _)     \* 1 + 2z/3 + 4z^2/15 + ...
ErfB(S, z2, p, k, acc) == IF p = <<>> THEN acc ELSE ErfB(S, z2, FDivI(FMulS(S, p, z2), k + 2), k + 2, NAdd(acc, p))
ErfPos(W, x) ==    \* x < 10
  LET S == W + 8
      z == RMul(2 * W + 10, x, x)
      b == ErfB(S, RFix(S, RTwice(z)), FOne(S), 1, <<>>)
  IN RDiv(W, RMul(W + 4, RTwice(x), R(0, b, -S)), RMul(W + 4, ExpAbs(W + 6, z), RSqrt(W + 4, PI(W + 4))))
\* complementary error function of x >= 3 by its continued fraction, from the tail up
ErfcBig(W, x) ==
  LET z == RMul(2 * W + 10, x, x)
      n == IF RAdj(x) >= 1 THEN 60 ELSE 400
      K[k \in 1..(n + 1)] == IF k = n + 1 THEN x ELSE RAdd(W, x, RDiv(W, RHalf(W, RInt(k)), K[k + 1]))
  IN RDiv(W, ROne, RMul(W + 4, RMul(W + 4, K[1], ExpAbs(W + 6, z)), RSqrt(W + 4, PI(W + 4))))
RErf(W, x) == IF RIs0(x) THEN x ELSE Odd1(x, IF RAdj(x) >= 1 THEN ROne ELSE ErfPos(W, RAbs(x)))
RErfc(W, x) ==
  IF x.s = 1 /\ ~RIs0(x) THEN RAdd(W, ROne, RErf(W, RAbs(x)))
  ELSE IF RCmpMag(x, RInt(3)) >= 0 THEN ErfcBig(W, x)
  ELSE RSub(W, ROne, RErf(W + 8, x))

---------------------------------------------------------------------------
\* gamma.  Tangent numbers T(1..n), then B(2k)/(2k(2k-1)) = (-1)^(k-1) T(k) / ((2k-1) 4^k (4^k - 1))
GN == 50
LOCAL TanStep(T, k) == [j \in 1..GN |-> IF j < k THEN T[j] ELSE <<>>]
LOCAL TanInit == LET f[j \in 1..GN] == IF j = 1 THEN <<1>> ELSE NMul(NFromInt(j - 1), f[j - 1]) IN f
RECURSIVE TanRow(_, _, _)
LOCAL TanRow(T, k, j) == IF j > GN THEN T
  ELSE TanRow([T EXCEPT ![j] = NAdd(NMul(NFromInt(j - k), T[j - 1]), NMul(NFromInt(j - k + 2), T[j]))], k, j + 1)
RECURSIVE TanAll(_, _)
LOCAL TanAll(T, k) == IF k > GN THEN T ELSE TanAll(TanRow(T, k, k), k + 1)
TanNum == TanAll(TanInit, 2)
LOCAL Pow4 == LET f[k \in 0..GN] == IF k = 0 THEN <<1>> ELSE NMul(f[k - 1], <<4>>) IN f
GW == 140
StirC == [k \in 1..GN |-> RDiv(GW, R(IF k % 2 = 1 THEN 0 ELSE 1, TanNum[k], 0),
                              R(0, NMul(NFromInt(2 * k - 1), NMul(Pow4[k], NSub(Pow4[k], <<1>>))), 0))]
\* ln Gamma(x) for x >= 40
StirLn(W, x) ==
  LET i2 == RDiv(W, ROne, RMul(W, x, x))
      H[k \in 1..(GN + 1)] == IF k = GN + 1 THEN RZero ELSE RAdd(W, RCut(W, StirC[k]), RMul(W, i2, H[k + 1]))
      l == RLn(W, x)
      a == RSub(W, RMul(W, RSub(W, x, R(0, <<5>>, -1)), l), x)
  IN RAdd(W, RAdd(W, a, RHalf(W, RLn(W, RTwice(PI(W))))), RDiv(W, H[1], x))
RECURSIVE RisProd(_, _, _, _)
RisProd(W, x, n, acc) == IF n = 0 THEN acc ELSE RisProd(W, RAdd(W, x, ROne), n - 1, RMul(W, acc, x))
\* for 0 < x
LnGammaPos(W, x) ==
  IF RCmpMag(x, RInt(40)) >= 0 THEN StirLn(W, x)
  ELSE LET n == 40 - NToInt(RFix(0, x)) IN
       RSub(W, StirLn(W, RAdd(W, x, RInt(n))), RLn(W, RisProd(W, x, n, ROne)))
\* |sin(pi x)| of x not an integer, |x| < 10^60: by the distance to the nearest integer
FracDist(x) ==
  LET d == IF x.e >= 0 THEN <<x.c, <<>>>> ELSE IF -x.e > NDigits(x.c) + 2 THEN <<<<>>, x.c>> ELSE NShr(x.c, -x.e)
      f == R(0, d[2], x.e)
  IN IF RCmpMag(f, R(0, <<5>>, -1)) > 0 THEN RSub(400, ROne, f) ELSE f
SinPi(W, x) == LET r == RMul(W + 2, PI(W + 2), RCut(W + 2, FracDist(x))) IN
  IF RCmpMag(r, R(0, NFromInt(785398), -6)) > 0 THEN CosSmall(W, RSub(W, RHalf(W + 2, PI(W + 2)), r)) ELSE SinSmall(W, r)
\* ln |Gamma(x)|, x not a pole
RLnGamma(W, x) ==
  IF x.s = 0 THEN LnGammaPos(W, x)
  ELSE RSub(W, RLn(W, RDiv(W, PI(W), SinPi(W, x))), LnGammaPos(W, RAdd(3 * W, ROne, RAbs(x))))
\* sign of Gamma at a negative non-integer: minus iff floor(|x|) is even
GammaSign(x) == IF x.s = 0 THEN 0 ELSE LET n == RFix(0, x) IN IF NOdd(n) THEN 0 ELSE 1
RGamma(W, x) == LET g == RExp(W, RLnGamma(W + 10, x)) IN [g EXCEPT !.s = GammaSign(x)]
=============================================================================
