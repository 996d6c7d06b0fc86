------------------------------ MODULE MCReals ------------------------------
(* The references for the transcendental functions against the identities that define the functions, and at one
   precision against another.  Pi: the long constant against Machin's formula. *)
EXTENDS Libm, TLC
CONSTANTS W, Part
Cs == {<<1>>, <<2>>, <<5>>, <<7>>, <<11>>, <<99>>, <<1001>>, <<9999, 999>>, <<6536, 4159, 31>>, <<1828, 27>>, <<1, 0, 0, 1>>, <<8346, 3589, 5307, 7963, 15>>}
Es == {-60, -33, -17, -9, -6, -4, -3, -2, -1, 0, 1, 2}
VARIABLES x, go
Init == x \in {R(s, c, e) : s \in {0, 1}, c \in Cs, e \in Es} /\ go = FALSE
Next == ~go /\ go' = TRUE /\ UNCHANGED x
Spec == Init /\ [][Next]_<<x, go>>
\* a = b to all but g of W digits; or to an absolute error of u in the W-th decimal
RelOk(a, b, g) == IF RIs0(b) THEN RIs0(a) ELSE RCmpMag(RSub(4 * W, a, b), R(0, <<1>>, RAdj(b) - W + g)) <= 0
AbsOk(a, b, g) == RCmpMag(RSub(4 * W, a, b), R(0, <<1>>, g - W)) <= 0
V == 2 * W + 10
A == RAdj(x)
Pos == x.s = 0
Less1 == RCmpMag(x, ROne) < 0
\* the claim every reference makes: right to W digits or so
Same(F(_, _), ok, g) == ok => RelOk(F(W, x), F(V, x), g)
Precise ==
  /\ Same(RExp, A <= 3, 2) /\ Same(RExpm1, A <= 3, 3) /\ Same(RLn, Pos, 3) /\ Same(RLog1p, Pos \/ Less1, 3)
  /\ Same(RSin, TRUE, 3) /\ Same(RCos, TRUE, 3) /\ Same(RTan, TRUE, 3) /\ Same(RAsin, Less1, 3) /\ Same(RAcos, Less1, 3) /\ Same(RAtan, TRUE, 3)
  /\ Same(RSinh, A <= 3, 3) /\ Same(RCosh, A <= 3, 3) /\ Same(RTanh, TRUE, 3) /\ Same(RAsinh, TRUE, 3) /\ Same(RAtanh, Less1, 3)
  /\ Same(RAcosh, Pos /\ RCmpMag(x, ROne) > 0, 3) /\ Same(RCbrt, TRUE, 3)
  /\ Same(RErf, A < 1, 3) /\ Same(RErfc, A < 1 /\ (x.s = 1 \/ A < 1), 5)
Sq(a) == RMul(V, a, a)
Sum(a, b) == RAdd(V, a, b)
Dif(a, b) == RSub(V, a, b)
Pr(a, b) == RMul(V, a, b)
Qu(a, b) == RDiv(V, a, b)
Max2(a, b) == IF a > b THEN a ELSE b
\* decimal digits lost in e^-x = sinh x + cosh x
Mag10(a) == IF RAdj(a) < 0 THEN 1 ELSE NToInt(RFix(0, RMul(6, RAbs(a), R(0, <<44>>, -2)))) + 1
RECURSIVE FactN(_, _)
FactN(n, acc) == IF n <= 1 THEN acc ELSE FactN(n - 1, RMul(200, acc, RInt(n)))
Fact(n) == FactN(n - 1, ROne)
Identities ==
  /\ (A <= 3 => RelOk(Pr(RExp(W, x), RExp(W, RNeg(x))), ROne, 3))
  /\ (A <= 2 => LET e == RExp(W, x) IN RelOk(RExp(W, RTwice(x)), Sq(e), 3) /\ (A >= -5 => AbsOk(RLn(W, e), x, 6)))
  /\ (A <= 2 => AbsOk(RExpm1(W, x), Dif(RExp(W, x), ROne), IF x.s = 1 THEN 3 ELSE Max2(3, RAdj(RExp(W, x)) + 3)))
  /\ (Pos => RelOk(RExp(W, RLn(W + 3, x)), x, 3))
  /\ (Pos => RelOk(RLog1p(W, x), RLn(W, RAdd(4 * W + 70, ROne, x)), 3))
  /\ LET s == RSin(W, x)  c == RCos(W, x) IN
     /\ AbsOk(Sum(Sq(s), Sq(c)), ROne, 3)
     /\ RelOk(RSin(W, RTwice(x)), RTwice(Pr(s, c)), 4)
     /\ RelOk(Pr(RTan(W, x), c), s, 4)
     /\ (Less1 => RelOk(RAsin(W, s), x, 4) /\ RelOk(RAtan(W, RTan(W, x)), x, 4))
  /\ (Less1 => AbsOk(Sum(RAsin(W, x), RAcos(W, x)), RHalf(W, PI(W)), 3) /\ RelOk(RSin(W, RAsin(W, x)), x, 4))
  /\ RelOk(RTan(W, RAtan(W, x)), x, 4 + Max2(0, A))
  /\ (A <= 2 => LET s == RSinh(W, x)  c == RCosh(W, x) IN RelOk(Sum(s, c), RExp(W, x), IF Pos THEN 3 ELSE 3 + 2 * Mag10(x)) /\ RelOk(Pr(RTanh(W, x), c), s, 3) /\ RelOk(RAsinh(W, s), x, 4)
                /\ (A >= -2 => RelOk(RAcosh(W, c), RAbs(x), 6)))
  /\ (Less1 => RelOk(RTanh(W, RAtanh(W, x)), x, 3))
  /\ LET c == RCbrt(W, x) IN RelOk(Pr(Sq(c), c), x, 3)
  /\ (A < 1 => AbsOk(Sum(RErf(W, x), RErfc(W, x)), ROne, 3))
  \* the two ways to the complementary error function, where they meet
  /\ (Pos /\ A = 0 /\ RCmpMag(x, RInt(3)) >= 0 => RelOk(ErfcBig(W, x), RSub(3 * W + 60, ROne, ErfPos(W + 60, x)), 6))
  /\ (A <= 3 => RelOk(RPow(W, R(0, <<2>>, 0), x), RExp(W, Pr(x, RLn(V, RInt(2)))), 3))
\* gamma: recurrence, reflection, factorials
IsInt(a) == RIs0(R(0, FracDist(a).c, 0))
GammaOk ==
  A <= 1 /\ A >= -4 /\ ~(x.s = 1 /\ IsInt(x)) =>
    LET g == RGamma(W, x) IN
    /\ RelOk(g, RGamma(W + 12, x), 4)
    /\ (~(x.s = 1 /\ IsInt(RAdd(V, x, ROne))) => RelOk(RGamma(W, RAdd(3 * W, x, ROne)), Pr(g, x), 5))
    /\ (~IsInt(x) => LET h == RGamma(W, RSub(3 * W, ROne, x))  p == RMul(W + 60, x, PI(W + 60)) IN RelOk(Pr(Pr(g, h), RSin(W, p)), PI(W), 6))
    /\ RelOk(RExp(W, RLnGamma(W + 8, x)), RAbs(g), 4)
    /\ (Pos /\ IsInt(x) /\ A <= 1 => RelOk(g, Fact(NToInt(RFix(0, x))), 3))
\* pi at full length: 16 atan(1/5) - 4 atan(1/239)
LongAtan(n) == LET S == PiScale + 10 IN FDivI(AtanS(S, FDivI(FOne(S), n * n)), n)
PiOk(S10) == LET m == NSub(NMul(<<16>>, LongAtan(5)), NMul(<<4>>, LongAtan(239))) IN
        /\ PiLong = NShr(m, S10)[1]
        /\ PIC = NShr(PiLong, PiScale - CS)[1]
ConstOk == RelOk(RExp(W, LN2(V)), RInt(2), 2) /\ RelOk(RExp(W, LN10(V)), RInt(10), 2) /\ RelOk(RSin(W, RHalf(V, PI(V))), ROne, 2)
Ok == go => CASE Part = "precise" -> Precise [] Part = "ident" -> Identities [] Part = "gamma" -> GammaOk
Once == (x = R(0, <<1>>, 0) /\ ~go) => (IF Part = "gamma" THEN PiOk(10) /\ ConstOk ELSE ConstOk)
=============================================================================
