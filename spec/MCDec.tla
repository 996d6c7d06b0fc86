------------------------------- MODULE MCDec -------------------------------
(* The arithmetic of the specification against what the properties say, on small formats and for every operand and
   rounding direction.  The properties are stated over the set of all representable numbers: a result is the
   representable number next to the exact value in the wanted direction, and so on.  Exact values are fractions
   n/d of big naturals. *)
EXTENDS Ops, TLC
CONSTANTS P, QLow, QMax, Op, Some
QMin == -QLow          \* configuration files have no negative numbers
F == [p |-> P, qmin |-> QMin, qmax |-> QMax, w |-> 0]
\* with Some, coefficients are thinned to keep three-operand runs finite in time
Coefs == IF Some THEN {0, 1, 2, 5, 9, 10, 49, 50, 51, 99} ELSE 0..(10^P - 1)
Data == {Fin(s, NFromInt(c), e) : s \in {0, 1}, c \in Coefs, e \in QMin..QMax} \cup {Inf(0), Inf(1), QNaN, Mk(SNAN, 0, 0, Zero0)}
Finite == {x \in Data : IsFin(x)}
Ternary == Op = "fma"
Unary == Op \in {"sqrt", "convert", "int", "next"}
VARIABLES x, y, z, m, go     \* the other operands are chosen in a step, so that workers share the work
vars == <<x, y, z, m, go>>
Init == x \in Data /\ y = QNaN /\ z = QNaN /\ m \in Modes /\ go = FALSE
Next == ~go /\ y' \in (IF Unary THEN {QNaN} ELSE Data) /\ z' \in (IF Ternary THEN Data ELSE {QNaN}) /\ go' = TRUE /\ UNCHANGED <<x, m>>
Spec == Init /\ [][Next]_vars

\* fractions: [s, n, d]
Scale0 == 2 * (Abs(QMin) + Abs(QMax)) + 6
Fr(s, n, d) == [s |-> s, n |-> n, d |-> d]
\* value of a finite datum over the common denominator 10^K
K == 3 * Abs(QMin) + 4
Val(d) == Fr(d.s, NShl(d.c, d.e + K), NShl(One, K))
FNeg(a) == [a EXCEPT !.s = 1 - a.s]
FIs0(a) == a.n = Zero0
FAdd(a, b) == LET u == NMul(a.n, b.d)  v == NMul(b.n, a.d)  dd == NMul(a.d, b.d) IN
  IF a.s = b.s THEN Fr(a.s, NAdd(u, v), dd) ELSE IF NCmp(u, v) >= 0 THEN Fr(a.s, NSub(u, v), dd) ELSE Fr(b.s, NSub(v, u), dd)
FMul(a, b) == Fr((a.s + b.s) % 2, NMul(a.n, b.n), NMul(a.d, b.d))
FDiv(a, b) == Fr((a.s + b.s) % 2, NMul(a.n, b.d), NMul(a.d, b.n))
\* compare magnitudes
FCmpM(a, b) == NCmp(NMul(a.n, b.d), NMul(b.n, a.d))

\* the representable magnitudes in ascending order, each once: full precision or the least exponent; two more decades
\* at the top
Lead == 10^(P - 1)
NMags == 10^P + 9 * Lead * (QMax + 2 - QMin)
MagAt(i) == IF i < 10^P THEN Fin(0, NFromInt(i), QMin) ELSE LET j == i - 10^P IN Fin(0, NFromInt(Lead + (j % (9 * Lead))), QMin + 1 + (j \div (9 * Lead)))
RECURSIVE Search(_, _, _)
\* greatest i in lo..hi-1 with Pred(i), which holds up to some point from lo on
Search(Pred(_), lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET k == (lo + hi) \div 2 IN IF Pred(k) THEN Search(Pred, k, hi) ELSE Search(Pred, lo, k)
TooBig(u) == u.e > QMax
\* the unlimited answer to rounding |v|, as a full-precision member of Mags; far beyond the top, the largest of them
NearestMag(v, s) ==
  LET i == Search(LAMBDA k : FCmpM(Val(MagAt(k)), v) <= 0, 0, NMags)  lo == MagAt(i)  hi == MagAt(i + 1) IN
  IF i = NMags - 1 THEN lo
  ELSE IF FCmpM(Val(lo), v) = 0 THEN lo
  ELSE LET twice == Fr(0, NMul(v.n, <<2>>), v.d)
                k == FCmpM(twice, FAdd(Val(lo), Val(hi)))
                \* the even one of two neighbours, when both are written with hi's or lo's exponent, whichever is less
                odd == NOdd(lo.c)
            IN CASE m = ZERO -> lo
                 [] m = UP -> IF s = 0 THEN hi ELSE lo
                 [] m = DOWN -> IF s = 1 THEN hi ELSE lo
                 [] m = AWAY -> IF k >= 0 THEN hi ELSE lo
                 [] OTHER -> IF k > 0 THEN hi ELSE IF k < 0 THEN lo ELSE IF odd THEN hi ELSE lo
\* members of the cohort of a finite number that the format has
Cohort(u) == {d \in {Fin(u.s, IF u.e >= e THEN NShl(u.c, u.e - e) ELSE NShr(u.c, e - u.e)[1], e) : e \in QMin..QMax} :
                InFormat(F, d) /\ CmpMag(d, u) = 0}
Dist(a, b) == Abs(a - b)
\* what the standard asks of result r (datum and flags) for the exact value v # 0 with sign s; pref: preferred exponent
Correct(r, v, pref) ==
  LET s == v.s  near == NearestMag(v, s)
      exact == FCmpM(Val(near), v) = 0 /\ ~TooBig(near)
      tiny == FCmpM(v, Val(Fin(0, NFromInt(Lead), QMin))) < 0
  IN IF TooBig(near) THEN r.fl = {"O", "X"} /\ r.d = OverflowResult(F, m, s)
     ELSE /\ IsFin(r.d) /\ r.d.s = s /\ InFormat(F, r.d) /\ CmpMag(r.d, near) = 0
          /\ r.fl = (IF exact THEN {} ELSE IF tiny THEN {"U", "X"} ELSE {"X"})
          /\ (exact => \A d \in Cohort(r.d) : Dist(r.d.e, pref) <= Dist(d.e, pref))
          /\ (~exact => \A d \in Cohort(r.d) : r.d.e <= d.e)
ZeroCorrect(r, s, pref) == r.fl = {} /\ r.d = Fin(s, Zero0, Clamp(F, pref))
SumSign(a, b) == IF a.s = b.s THEN a.s ELSE IF m = DOWN THEN 1 ELSE 0
NaNs == IF AnyNaN(<<x, y, z>>) THEN TRUE ELSE FALSE
IsInvalid(r) == r.d.k = QNAN /\ r.fl = {"I"}
NaNOk(r, args) == r.d.k = QNAN /\ r.fl = (IF \E i \in 1..Len(args) : IsSNaN(args[i]) THEN {"I"} ELSE {})

AddOk ==
  LET r == Add(F, m, x, y) IN
  IF IsNaN(x) \/ IsNaN(y) THEN NaNOk(r, <<x, y>>)
  ELSE IF IsInf(x) \/ IsInf(y) THEN (IF IsInf(x) /\ IsInf(y) /\ x.s # y.s THEN IsInvalid(r) ELSE r.fl = {} /\ r.d = (IF IsInf(x) THEN x ELSE y))
  ELSE LET v == FAdd(Val(x), Val(y)) IN
       IF FIs0(v) THEN ZeroCorrect(r, SumSign(x, y), Min(x.e, y.e)) ELSE Correct(r, v, Min(x.e, y.e))
\* the rule for far apart operands agrees with the unlimited one wherever it applies
FarOk == IsFin(x) /\ IsFin(y) /\ ~IsZero(x) /\ ~IsZero(y) /\ x.e - AdjExp(y) > P + 2 =>
           AddFar(F, m, x, y) = AddExact(F, m, x, y)
MulOk ==
  LET r == Mul(F, m, x, y)  s == (x.s + y.s) % 2 IN
  IF IsNaN(x) \/ IsNaN(y) THEN NaNOk(r, <<x, y>>)
  ELSE IF IsInf(x) \/ IsInf(y) THEN (IF IsZero(x) \/ IsZero(y) THEN IsInvalid(r) ELSE r.fl = {} /\ r.d = Inf(s))
  ELSE IF IsZero(x) \/ IsZero(y) THEN ZeroCorrect(r, s, x.e + y.e) ELSE Correct(r, FMul(Val(x), Val(y)), x.e + y.e)
DivOk ==
  LET r == Div(F, m, x, y)  s == (x.s + y.s) % 2 IN
  IF IsNaN(x) \/ IsNaN(y) THEN NaNOk(r, <<x, y>>)
  ELSE IF IsInf(x) THEN (IF IsInf(y) THEN IsInvalid(r) ELSE r.fl = {} /\ r.d = Inf(s))
  ELSE IF IsInf(y) THEN r.fl = {} /\ IsZero(r.d) /\ r.d.s = s
  ELSE IF IsZero(y) THEN (IF IsZero(x) THEN IsInvalid(r) ELSE r.fl = {"Z"} /\ r.d = Inf(s))
  ELSE IF IsZero(x) THEN ZeroCorrect(r, s, x.e - y.e) ELSE Correct(r, FDiv(Val(x), Val(y)), x.e - y.e)
\* r is the rounding of the root of v = x: squares instead of roots.  Halfway points are never exact roots of short
\* numbers except where the square has that many digits, so compare the square of the midpoint.
SqrtNear(v) ==
  LET sq(u) == FMul(Val(u), Val(u))
      i == Search(LAMBDA k : FCmpM(sq(MagAt(k)), v) <= 0, 0, NMags)  lo == MagAt(i)  hi == IF FCmpM(sq(lo), v) = 0 THEN lo ELSE MagAt(i + 1)
      mid == LET t == FAdd(Val(lo), Val(hi)) IN FMul(t, t)      \* (lo+hi)^2 against 4v
      k == FCmpM(Fr(0, NMul(v.n, <<4>>), v.d), mid)
  IN IF lo = hi THEN lo ELSE CASE m \in {ZERO, DOWN} -> lo [] m = UP -> hi [] m = AWAY -> IF k >= 0 THEN hi ELSE lo
       [] OTHER -> IF k > 0 THEN hi ELSE IF k < 0 THEN lo ELSE IF NOdd(lo.c) THEN hi ELSE lo
SqrtOk ==
  LET r == Sqrt(F, m, x) IN
  IF IsNaN(x) THEN NaNOk(r, <<x>>) ELSE IF IsZero(x) THEN ZeroCorrect(r, x.s, x.e \div 2) ELSE IF x.s = 1 THEN IsInvalid(r)
  ELSE IF IsInf(x) THEN r = Just(x)
  ELSE LET near == SqrtNear(Val(x))  exact == FCmpM(FMul(Val(near), Val(near)), Val(x)) = 0 IN
       /\ IsFin(r.d) /\ r.d.s = 0 /\ InFormat(F, r.d) /\ CmpMag(r.d, near) = 0 /\ r.fl = (IF exact THEN {} ELSE {"X"})
       /\ (exact => \A d \in Cohort(r.d) : Dist(r.d.e, x.e \div 2) <= Dist(d.e, x.e \div 2))
       /\ (~exact => \A d \in Cohort(r.d) : r.d.e <= d.e)
FmaOk ==
  LET r == Fma(F, m, x, y, z)  s == (x.s + y.s) % 2 IN
  IF AnyNaN(<<x, y, z>>) THEN NaNOk(r, <<x, y, z>>)
  ELSE IF (IsInf(x) /\ IsZero(y)) \/ (IsZero(x) /\ IsInf(y)) THEN IsInvalid(r)
  ELSE IF IsInf(x) \/ IsInf(y) THEN (IF IsInf(z) /\ z.s # s THEN IsInvalid(r) ELSE r.fl = {} /\ r.d = Inf(s))
  ELSE IF IsInf(z) THEN r = Just(z)
  ELSE LET pr == Min(x.e + y.e, z.e)  v == FAdd(FMul(Val(x), Val(y)), Val(z)) IN
       IF FIs0(v) THEN ZeroCorrect(r, IF s = z.s THEN s ELSE IF m = DOWN THEN 1 ELSE 0, pr) ELSE Correct(r, v, pr)
\* conversion down to one digit and up to one more digit with a wider range
G1 == [p |-> P - 1, qmin |-> QMin + 1, qmax |-> QMax - 1, w |-> 0]
ConvertOk ==
  /\ LET r == Convert(F, m, x) IN IF IsNaN(x) THEN NaNOk(r, <<x>>) ELSE r = Just(x)
  /\ LET up == Convert([F EXCEPT !.p = P + 2, !.qmin = QMin - 2, !.qmax = QMax + 2], m, x) IN
       IF IsNaN(x) THEN NaNOk(up, <<x>>) ELSE up.fl = {} /\ up.d = x
  /\ LET dn == Convert(G1, m, x) IN
       IF IsNaN(x) THEN NaNOk(dn, <<x>>) ELSE InFormat(G1, dn.d) /\ (IsFin(x) /\ dn.fl = {} => CmpMag(dn.d, x) = 0)
\* neighbours: nothing representable lies between
AllMags == {MagAt(i) : i \in 0..(NMags - 1 - 18 * Lead)}
NextOk ==
  /\ LET r == NextUp(F, x) IN
     IF IsNaN(x) THEN IsNaN(r)
     ELSE IF x = Inf(0) THEN r = x
     ELSE /\ InFormat(F, r) /\ Cmp(x, r) < 0
          /\ \A u \in AllMags : LET v == [u EXCEPT !.s = x.s] IN ~(Cmp(x, v) < 0 /\ Cmp(v, r) < 0)
          /\ (IsInf(r) => CmpMagI(x, MaxFin(F, 0)) = 0)
  /\ (~IsNaN(x) => NextDown(F, x) = Neg(NextUp(F, Neg(x))))
  /\ (IsFin(x) /\ ~IsZero(x) /\ ~IsInf(NextUp(F, x)) => SameValue(NextDown(F, NextUp(F, x)), x) \/ IsZero(NextUp(F, x)))
\* rounding to an integer: next integer in the direction
IntOk == IsFin(x) =>
  LET r == RoundIntegral(F, m, x)
      v == Val(x)
      \* candidate integers
      lo == NShr(v.n, K)[1]  hi == NAdd(lo, One)
      fr == NShr(v.n, K)[2]
      h == NCmp(NMul(fr, <<2>>), NShl(One, K))
      c == IF fr = Zero0 THEN lo ELSE CASE m = ZERO -> lo [] m = UP -> (IF x.s = 0 THEN hi ELSE lo) [] m = DOWN -> (IF x.s = 1 THEN hi ELSE lo)
             [] m = AWAY -> (IF h >= 0 THEN hi ELSE lo) [] OTHER -> IF h > 0 THEN hi ELSE IF h < 0 THEN lo ELSE IF NOdd(lo) THEN hi ELSE lo
  IN r.d.s = x.s /\ FCmpM(Val(r.d), Fr(0, c, One)) = 0 /\ (r.fl = {"X"}) = (fr # Zero0) /\ r.d.e = Max(x.e, 0)
\* quantize: y's exponent, or invalid exactly when that takes too many digits
QuantOk ==
  LET r == Quantize(F, m, x, y) IN
  IF IsFin(x) /\ IsFin(y) THEN
    (IF IsInvalid(r) THEN NDigits(x.c) + x.e - y.e >= P
     ELSE r.d.e = y.e /\ InFormat(F, r.d) /\ r.d.s = x.s /\ (r.fl = {}) = (CmpMag(r.d, x) = 0)
          /\ FCmpM(FAdd(Val(r.d), FNeg(Val(x))), Val(Fin(0, One, y.e))) < 0)
  ELSE IF IsNaN(x) \/ IsNaN(y) THEN NaNOk(r, <<x, y>>) ELSE IF IsInf(x) /\ IsInf(y) THEN r = Just(x) ELSE IsInvalid(r)
\* remainders: x - n*y for an integer n, |r| <= |y|/2 (even n on a tie), or |r| < |y| with the sign of x
RemOk ==
  IF IsFin(x) /\ IsFin(y) /\ ~IsZero(y) THEN
    LET f == FMod(F, x, y).d  r == Remainder(F, x, y).d
        q(d) == LET t == FDiv(FAdd(Val(x), FNeg(Val(d))), Val(y)) IN NDivMod(t.n, t.d)
        twice(d) == FAdd(Val(d), Val(d))
    IN /\ q(f)[2] = Zero0 /\ f.s = x.s /\ FCmpM(Val(f), Val(y)) < 0
       /\ q(r)[2] = Zero0 /\ FCmpM(twice(r), Val(y)) <= 0 /\ (FCmpM(twice(r), Val(y)) = 0 => ~NOdd(q(r)[1]))
       /\ (IsZero(r) => r.s = x.s)
       /\ InFormat([F EXCEPT !.qmin = QMin], f) /\ NDigits(r.c) <= P
  ELSE TRUE
\* comparison: a total order on numbers that agrees with the exact values
CmpOk ==
  IF IsNaN(x) \/ IsNaN(y) THEN Unordered(x, y) /\ ~Less(x, y) /\ ~Greater(x, y) /\ ~Equal(x, y)
  ELSE /\ Cardinality({k \in {1, 2, 3} : <<Less(x, y), Equal(x, y), Greater(x, y)>>[k]}) = 1
       /\ Less(x, y) = Greater(y, x)
       /\ (IsFin(x) /\ IsFin(y) => LET d == FAdd(Val(x), FNeg(Val(y))) IN Equal(x, y) = FIs0(d) /\ (Less(x, y) = (~FIs0(d) /\ d.s = 1)))
Ok == go => CASE Op = "add" -> AddOk /\ FarOk [] Op = "mul" -> MulOk [] Op = "div" -> DivOk [] Op = "sqrt" -> SqrtOk [] Op = "fma" -> FmaOk
        [] Op = "convert" -> ConvertOk [] Op = "next" -> NextOk [] Op = "int" -> IntOk [] Op = "quantize" -> QuantOk
        [] Op = "rem" -> RemOk [] Op = "cmp" -> CmpOk
=============================================================================
