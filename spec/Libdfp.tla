------------------------------- MODULE Libdfp -------------------------------
(* libdfp as a state machine.  Each thread owns an environment: decimal rounding direction, exception
   flags, errno and binary rounding direction.  A step is a library call on some thread; Outcome gives
   what the call may return and do to its thread's environment. *)
EXTENDS Ops, Text, Libm, Binary

AllFlags == {"I", "Z", "O", "U", "X"}

\* kinds of expected results
XD(x) == [t |-> "d", d |-> x, q |-> TRUE]          \* this datum, exponent included
XV(x) == [t |-> "d", d |-> x, q |-> FALSE]         \* this number, any member of the cohort
XOneOf(S) == [t |-> "o", S |-> S]                  \* one of these data
XI(n) == [t |-> "i", n |-> n]                      \* this small integer
XN(v) == [t |-> "n", v |-> v]                      \* this big integer
XS(s) == [t |-> "s", s |-> s]                      \* this string
XB(x) == [t |-> "b", d |-> x]                      \* this binary number
XAny == [t |-> "any"]
XNaN == XV(QNaN)
XBool(b) == XI(IF b THEN 1 ELSE 0)

(* outcome: results, flags that must be raised, further flags that may be raised, errno values that may
   be stored ("no": none) *)
Out(r, must, may, en) == [r |-> r, must |-> must, may |-> may, en |-> en]
NoErr == {"no"}
Exact(x, res) == Out(<<XD(res.d)>>, res.fl, {}, NoErr)
\* flags of these functions are not part of the contract beyond stickiness
Loose(x) == Out(x, {}, AllFlags, NoErr)
Pure(x) == Out(x, {}, {}, NoErr)

Bin(op(_, _, _, _), F, m, x, y) == Exact(0, op(F, m, x, y))
IntT == [fixsi |-> "si", fixdi |-> "di", fixti |-> "ti", fixusi |-> "usi", fixudi |-> "udi", fixuti |-> "uti"]

FixOut(ty, m, x) ==
  LET r == ToInt(ty, m, x) IN
  IF r.ok THEN Out(<<XN(r.v)>>, IF r.exact THEN {} ELSE {"X"}, {}, NoErr)
  ELSE Out(<<XAny>>, {"I"}, {}, NoErr)
\* lrint and friends: inexact is not specified for lround/llround
LrintOut(f, m, x) ==
  LET r == ToInt("di", m, x) IN
  IF r.ok THEN Out(<<XN(r.v)>>, IF f \in {"lrint", "llrint"} /\ ~r.exact THEN {"X"} ELSE {},
                   IF f \in {"lround", "llround"} THEN {"X"} ELSE {}, NoErr)
  ELSE Out(<<XAny>>, {"I"}, {"X"}, {"dom"})

RintMode(f, m) == CASE f = "ceil" -> UP [] f = "floor" -> DOWN [] f = "trunc" -> ZERO [] f = "round" -> AWAY
                    [] f = "roundeven" -> NEAR [] OTHER -> m
RintOut(F, f, m, x) ==
  LET r == RoundIntegral(F, RintMode(f, m), x) IN
  IF f = "rint" THEN Exact(0, r) ELSE Out(<<XD(r.d)>>, r.fl \ {"X"}, IF f = "nearbyint" THEN {} ELSE {"X"}, NoErr)

\* quiet comparison predicates raise invalid only for signaling NaNs; the ordered operators may for any NaN
CmpOut(b, x, y, ordered) ==
  Out(<<XBool(b)>>, IF IsSNaN(x) \/ IsSNaN(y) THEN {"I"} ELSE {}, IF ordered /\ Unordered(x, y) THEN {"I"} ELSE {}, NoErr)

MaxOut(f, x, y) ==
  LET mag == f \in {"fmaxmag", "fminmag"}
      mx == f \in {"fmax", "fmaxmag"}
      km == CmpMagI(x, y)
      k == IF mag /\ km # 0 THEN km ELSE Cmp(x, y)
  IN IF IsNaN(x) /\ IsNaN(y) THEN Out(<<XNaN>>, {}, {"I"}, NoErr)
     ELSE IF IsSNaN(x) \/ IsSNaN(y) THEN Out(<<XOneOf({QNaN, IF IsNaN(x) THEN y ELSE x})>>, {}, {"I"}, NoErr)
     ELSE IF IsNaN(x) THEN Pure(<<XD(y)>>) ELSE IF IsNaN(y) THEN Pure(<<XD(x)>>)
     ELSE IF k = 0 THEN Pure(<<XOneOf({x, y})>>)
     ELSE IF (k > 0) = mx THEN Pure(<<XD(x)>>) ELSE Pure(<<XD(y)>>)

FdimOut(F, m, x, y) ==
  IF IsNaN(x) \/ IsNaN(y) THEN Out(<<XNaN>>, {}, AllFlags, NoErr)
  ELSE IF Cmp(x, y) > 0 THEN LET r == Sub(F, m, x, y) IN Out(<<XV(r.d)>>, {}, AllFlags, IF "O" \in r.fl THEN {"no", "range"} ELSE NoErr)
  ELSE Out(<<XV(Fin(0, Zero0, 0))>>, {}, AllFlags, NoErr)

NextOut(F, x, y) ==      \* y may be of another format
  IF IsNaN(x) \/ IsNaN(y) THEN Out(<<XNaN>>, {}, {"I"}, NoErr)
  ELSE LET k == Cmp(x, y) IN
    IF k = 0 THEN Out(<<XV(IF IsInf(y) THEN x ELSE [x EXCEPT !.s = y.s])>>, {}, AllFlags, NoErr)
    ELSE LET r == IF k < 0 THEN NextUp(F, x) ELSE NextDown(F, x) IN
      Out(<<XV(r)>>, {}, AllFlags, IF (IsInf(r) /\ ~IsInf(x)) \/ IsZero(r) \/ IsSubnormal(F, r) THEN {"no", "range"} ELSE NoErr)

LogbRes(x) == IF IsNaN(x) THEN QNaN ELSE IF IsInf(x) THEN Inf(0) ELSE IF IsZero(x) THEN Inf(1) ELSE IntDec(AdjExp(x))
IntMax == Int0(0, NSub(P31, One))   IntMin == Int0(1, P31)
LongMax == Int0(0, NSub(P63, One))  LongMin == Int0(1, P63)
IV(n) == IF n < 0 THEN Int0(1, NFromInt(-n)) ELSE Int0(0, NFromInt(n))
IlogbOut(x, mx, mn) ==     \* FP_ILOGB0 = FP_ILOGBNAN = INT_MIN on this platform
  IF IsNaN(x) THEN Out(<<XN(mn)>>, {}, AllFlags, {"no", "dom"})
  ELSE IF IsInf(x) THEN Out(<<XN(IF x.s = 1 THEN mn ELSE mx)>>, {}, AllFlags, {"no", "dom"})    \* minus infinity: as the tests have it
  ELSE IF IsZero(x) THEN Out(<<XN(mn)>>, {}, AllFlags, {"no", "dom"})
  ELSE Out(<<XN(IV(AdjExp(x)))>>, {}, {}, NoErr)

FrexpOut(x) ==
  IF ~IsFin(x) THEN Out(<<XV(IF IsNaN(x) THEN QNaN ELSE x), XAny>>, {}, {"I"}, NoErr)
  ELSE IF IsZero(x) THEN Pure(<<XV(x), XN(IV(0))>>)
  ELSE Pure(<<XV(Fin(x.s, x.c, -NDigits(x.c))), XN(IV(AdjExp(x) + 1))>>)
ModfOut(F, x) ==
  IF IsNaN(x) THEN Out(<<XNaN, XNaN>>, {}, {"I"}, NoErr)
  ELSE IF IsInf(x) THEN Pure(<<XV(Fin(x.s, Zero0, 0)), XV(x)>>)
  ELSE IF x.e >= 0 THEN Pure(<<XV(Fin(x.s, Zero0, 0)), XV(x)>>)
  ELSE LET d == NShr(x.c, -x.e) IN Out(<<XV(Fin(x.s, d[2], x.e)), XV(Fin(x.s, d[1], 0))>>, {}, {"X"}, NoErr)

ScaleOut(F, m, x, v) ==
  LET r == Scale(F, m, x, v) IN
  Out(<<XV(r.d)>>, r.fl, {}, IF IsInf(r.d) /\ ~IsInf(x) THEN {"range"} ELSE IF r.fl \cap {"O", "U"} # {} THEN {"no", "range"} ELSE NoErr)

RemOut(r, x, y) == Out(<<XV(r.d)>>, r.fl, {},
  IF IsNaN(x) \/ IsNaN(y) THEN NoErr ELSE IF r.d.k = QNAN THEN {"dom"} ELSE NoErr)

BinFmt(f) == CASE f \in {"fromf32", "tof32"} -> B32 [] f \in {"fromf64", "tof64"} -> B64 [] f \in {"fromf80", "tof80"} -> B80 [] OTHER -> B128
FromOps == {"fromf32", "fromf64", "fromf80", "fromf128"}
ToOps == {"tof32", "tof64", "tof80", "tof128"}
\* the direction in force for a call: that of the radix of its result; binary directions are 0 to 3
Direction(f, p) == IF f \in ToOps THEN <<NEAR, DOWN, UP, ZERO>>[p[4] + 1] ELSE p[1]
\* between radices the library decides underflow after rounding: nothing is said of what rounds up to a normal number
RadixOut(x, fl, normal) == Out(<<x>>, IF normal THEN fl \ {"U"} ELSE fl, IF normal THEN fl ELSE {}, NoErr)

SignOut(x) == Out(<<[t |-> "d", d |-> x, q |-> TRUE]>>, {}, {}, NoErr)

(* stream input: takes the longest number at the front; what it takes of text where a number runs on into
   something else ("1e+", "12abc") is left open *)
EndsClean(s, t) == At(s, t.end + 1) \in Space \cup {0, 44}
GetOut(F, m, s) ==
  LET t == Scan(s) IN
  IF t.kind = "none" THEN Out(<<XAny, XI(1), XAny>>, {}, AllFlags, {"no", "range"})
  ELSE IF ~EndsClean(s, t) THEN Out(<<XAny, XAny, XAny>>, {}, AllFlags, {"no", "range"})
  ELSE Out(<<ReadOut(F, m, s).r[1], XI(0), XI(t.end)>>, {}, AllFlags, {"no", "range"})
\* two in a row from one stream
Get2Out(F, m, s) ==
  LET t == Scan(s)
      u == SubSeq(s, t.end + 1, Len(s))
      t2 == Scan(u)
      en == {"no", "range"}
  IN IF t.kind = "none" THEN Out(<<XAny, XAny, XI(3), XAny>>, {}, AllFlags, en)
     ELSE IF ~EndsClean(s, t) THEN Out(<<XAny, XAny, XAny, XAny>>, {}, AllFlags, en)
     ELSE IF t2.kind = "none" THEN Out(<<ReadOut(F, m, s).r[1], XAny, XI(2), XAny>>, {}, AllFlags, en)
     ELSE IF ~EndsClean(u, t2) THEN Out(<<ReadOut(F, m, s).r[1], XAny, XAny, XAny>>, {}, AllFlags, en)
     ELSE Out(<<ReadOut(F, m, s).r[1], ReadOut(F, m, u).r[1], XI(0), XI(t.end + t2.end)>>, {}, AllFlags, en)
\* what was written in style a, or in style e with every digit, reads back as itself
TripOut(x, how) == Out(<<IF IsNaN(x) THEN XNaN ELSE IF how >= 4 THEN XV(x) ELSE XD(x)>>, {}, AllFlags, {"no", "range"})

MathOut(F, f, m, x, y) ==
  LET z == Math(F, f, x, y) IN
  CASE z.t = "x" -> Out(<<XV(z.d)>>, {}, AllFlags, NoErr)
    [] z.t = "o" -> Out(<<[t |-> "v", S |-> z.S]>>, {}, AllFlags, NoErr)
    [] z.t = "nan" -> Out(<<XNaN>>, {}, AllFlags, NoErr)
    [] z.t = "dom" -> Out(<<XNaN>>, {}, AllFlags, {"dom"})
    [] z.t = "pole" -> Out(<<XV(z.d)>>, {}, AllFlags, {"range"})
    [] z.t = "r" -> Out(<<[t |-> "r", r |-> z.r, f |-> f, F |-> F, b |-> Bound(F, m, f, x, y, z.r), fl |-> UnitFloor(F, f, x)]>>, {}, AllFlags, MathErrno(F, m, z.r))
    [] OTHER -> Out(<<[t |-> z.t]>>, {}, AllFlags, NoErr)
\* a real known to a bound: gross errors (class, sign, range) fail "value", the rest "ulp"
JudgeReal(x, d) ==
  IF IsNaN(d) THEN {"value", "ulp"}
  ELSE (IF d.s # x.r.s /\ ~RIs0(x.r) THEN {"value", "ulp"} ELSE {})
       \cup (IF OverCeil(x.f, d) \/ (IsInf(d) /\ RAdj(x.r) < x.F.qmax + x.F.p - 1) THEN {"value"} ELSE {})
       \cup (IF Within(x.F, d, x.r, x.b, x.fl) THEN {} ELSE {"ulp"})

\* the classification macros of math.h on a binary number: one of the five classes, and a mask of the six predicates
BClassOps == {"bclass32", "bclass64", "bclass80"}
BClassFmt(f) == CASE f = "bclass32" -> B32 [] f = "bclass64" -> B64 [] OTHER -> B80
BClassify(G, x) == CASE IsNaN(x) -> FP_NAN [] IsInf(x) -> FP_INFINITE [] IsZero(x) -> FP_ZERO
                     [] NCmp(x.c, Two(G.p - 1)) < 0 -> FP_SUBNORMAL [] OTHER -> FP_NORMAL
BClassMask(G, x) == (IF IsNaN(x) THEN 1 ELSE 0) + (IF IsInf(x) THEN 2 ELSE 0) + (IF IsFin(x) THEN 4 ELSE 0)
                    + (IF BClassify(G, x) = FP_NORMAL THEN 8 ELSE 0) + (IF x.s = 1 THEN 16 ELSE 0) + (IF IsSNaN(x) THEN 32 ELSE 0)
\* the constants of math.h, in the nearest number of the format they are given in
XConst(F, k) == [t |-> "r", r |-> MathConst(F.p + 12, k), f |-> "mconst", F |-> F, b |-> 6, fl |-> F.qmin]

Dc(a) == [k |-> a[1], s |-> a[2], e |-> a[3], c |-> SubSeq(a, 4, Len(a))]
Ic(a) == [s |-> a[1], n |-> SubSeq(a, 2, Len(a))]

Outcome(f, w, m, a) ==
  LET F == Fmt(w)
      x == Dc(a[1])  y == Dc(a[2])  z == Dc(a[3])
  IN
  CASE f = "add" -> Exact(0, Add(F, m, x, y))
    [] f = "sub" -> Exact(0, Sub(F, m, x, y))
    [] f = "mul" -> Exact(0, Mul(F, m, x, y))
    [] f = "div" -> Exact(0, Div(F, m, x, y))
    [] f = "fma" -> LET r == Fma(F, m, x, y, z) IN
         Out(<<XD(r.d)>>, r.fl, IF IsNaN(r.d) THEN {"I"} ELSE {},
             IF (IsInf(x) /\ IsZero(y)) \/ (IsZero(x) /\ IsInf(y)) THEN {"no", "dom"} ELSE IF IsNaN(r.d) /\ ~AnyNaN(<<x, y, z>>) THEN {"dom"} ELSE NoErr)
    [] f = "sqrt" -> LET r == Sqrt(F, m, x) IN Out(<<XD(r.d)>>, r.fl, {}, IF ~IsNaN(x) /\ IsNaN(r.d) THEN {"dom"} ELSE NoErr)
    [] f \in FromOps -> LET r == FromBin(F, m, x) IN RadixOut(XD(r.d), r.fl, IsFin(r.d) /\ ~IsSubnormal(F, r.d))
    [] f \in ToOps -> LET G == BinFmt(f)  r == ToBin(G, m, x) IN RadixOut(XB(r.d), r.fl, IsFin(r.d) /\ NCmp(r.d.c, Two(G.p - 1)) >= 0)
    [] f = "to32" -> Exact(0, Convert(F32, m, x))
    [] f = "to64" -> Exact(0, Convert(F64, m, x))
    [] f = "to128" -> Exact(0, Convert(F128, m, x))
    [] f \in {"fixsi", "fixdi", "fixti", "fixusi", "fixudi", "fixuti"} -> FixOut(IntT[f], ZERO, x)
    [] f \in {"floatsi", "floatdi", "floatti", "floatusi", "floatudi", "floatuti"} ->
         LET v == Ic(a[1]) IN Exact(0, FromInt(F, m, v.s, v.n))
    [] f = "neg" -> SignOut(Neg(x))
    [] f = "fabs" -> SignOut([x EXCEPT !.s = 0])
    [] f = "copysign" -> SignOut([x EXCEPT !.s = y.s])
    [] f = "eq" -> CmpOut(Equal(x, y), x, y, FALSE)
    [] f = "ne" -> CmpOut(~Equal(x, y), x, y, FALSE)
    [] f = "lt" -> CmpOut(Less(x, y), x, y, TRUE)
    [] f = "le" -> CmpOut(Less(x, y) \/ Equal(x, y), x, y, TRUE)
    [] f = "gt" -> CmpOut(Greater(x, y), x, y, TRUE)
    [] f = "ge" -> CmpOut(Greater(x, y) \/ Equal(x, y), x, y, TRUE)
    [] f \in {"unord", "isunordered"} -> CmpOut(Unordered(x, y), x, y, FALSE)
    [] f = "isgreater" -> CmpOut(Greater(x, y), x, y, FALSE)
    [] f = "isgreaterequal" -> CmpOut(Greater(x, y) \/ Equal(x, y), x, y, FALSE)
    [] f = "isless" -> CmpOut(Less(x, y), x, y, FALSE)
    [] f = "islessequal" -> CmpOut(Less(x, y) \/ Equal(x, y), x, y, FALSE)
    [] f = "islessgreater" -> CmpOut(Less(x, y) \/ Greater(x, y), x, y, FALSE)
    [] f \in {"ceil", "floor", "trunc", "round", "roundeven", "rint", "nearbyint"} -> RintOut(F, f, m, x)
    [] f \in {"lrint", "llrint"} -> LrintOut(f, m, x)
    [] f \in {"lround", "llround"} -> LrintOut(f, AWAY, x)
    [] f \in {"fpclassify", "m_fpclassify"} -> Pure(<<XI(Classify(F, x))>>)
    [] f \in {"isfinite", "m_isfinite", "finite"} -> Pure(<<XBool(IsFin(x))>>)
    [] f \in {"isinf", "m_isinf"} -> Pure(<<XBool(IsInf(x))>>)
    [] f \in {"isnan", "m_isnan"} -> Pure(<<XBool(IsNaN(x))>>)
    [] f \in {"issignaling", "m_issignaling"} -> Pure(<<XBool(IsSNaN(x))>>)
    [] f \in {"isnormal", "m_isnormal"} -> Pure(<<XBool(IsNormal(F, x))>>)
    [] f \in {"signbit", "m_signbit"} -> Pure(<<XBool(x.s = 1)>>)
    [] f = "nan" -> Pure(<<XNaN>>)
    [] f \in {"fmax", "fmin", "fmaxmag", "fminmag"} -> MaxOut(f, x, y)
    [] f = "fdim" -> FdimOut(F, m, x, y)
    [] f \in {"nextafter", "nexttoward"} -> NextOut(F, x, y)
    [] f = "nextup" -> Out(<<XV(NextUp(F, x))>>, {}, {"I"}, NoErr)
    [] f = "nextdown" -> Out(<<XV(NextDown(F, x))>>, {}, {"I"}, NoErr)
    [] f = "quantize" -> LET r == Quantize(F, m, x, y) IN Out(<<XD(r.d)>>, r.fl \ {"X"}, r.fl \cup {"X"}, NoErr)
    [] f = "samequantum" -> Pure(<<XBool(SameQuantum(x, y))>>)
    [] f = "quantum" -> IF IsNaN(x) THEN Out(<<XOneOf({QNaN, x})>>, {}, {"I"}, NoErr) ELSE Pure(<<XD(Quantum(x))>>)
    [] f = "llquantexp" -> IF IsFin(x) THEN Pure(<<XN(IV(x.e))>>) ELSE Out(<<XN(LongMin)>>, {}, {"I"}, {"no", "dom"})
    [] f = "frexp" -> FrexpOut(x)
    [] f = "modf" -> ModfOut(F, x)
    [] f \in {"ldexp", "scalbn", "scalbln"} -> ScaleOut(F, m, x, Ic(a[2]))
    [] f = "logb" -> Out(<<XV(LogbRes(x))>>, {}, AllFlags, IF IsZero(x) THEN {"no", "range"} ELSE NoErr)
    [] f = "ilogb" -> IlogbOut(x, IntMax, IntMin)
    [] f = "llogb" -> IlogbOut(x, LongMax, LongMin)
    [] f = "fmod" -> RemOut(FMod(F, x, y), x, y)
    [] f = "remainder" -> RemOut(Remainder(F, x, y), x, y)
    [] f \in {"strtod", "wcstod"} -> LET o == ReadOut(F, m, a[1]) IN Out(o.r, {}, o.fl, o.en)
    [] f = "iget" -> GetOut(F, m, a[1])
    [] f = "iget2" -> Get2Out(F, m, a[1])
    [] f = "rtrip" -> TripOut(x, NSmall(a[2], 0, 7))
    [] f = "fmt" -> LET t == Format(F, m, x, ParseFmt(a[2])) IN Out(<<XS(t), XI(Len(t))>>, {}, AllFlags, NoErr)
    [] f = "strfrom" -> LET t == StrfromOut(F, m, x, a[2], NSmall(a[3], 0, 20000)) IN Out(<<XS(t[1]), XI(t[2]), XI(1)>>, {}, AllFlags, NoErr)
    [] f \in {"lstrtod", "lwcstod"} ->
         LET L == Locales[NSmall(a[2], 0, 6) + 1]  u == FromLocale(L, a[1], 1)  o == ReadOut(F, m, u) IN
         Out(<<o.r[1], IF f = "lwcstod" THEN o.r[2] ELSE XI(Bytes(L, u, o.r[2].n))>>, {}, o.fl, o.en)
    [] f = "lfmt" -> LET p == ParseFmt(a[2])  t == FormatIn(Locales[NSmall(a[3], 0, 6) + 1], F, m, x, p) IN
         \* the grouping flag goes with styles f and g only
         IF 39 \in p.fl /\ Lower(p.conv) \in {97, 101} THEN Out(<<XAny, XAny>>, {}, AllFlags, NoErr) ELSE Out(<<XS(t), XI(Len(t))>>, {}, AllFlags, NoErr)
    [] f = "lstrfrom" -> LET t == FormatIn(Locales[NSmall(a[4], 0, 6) + 1], F, m, x, ParseFmt(SubSeq(a[2], 2, Len(a[2]))))  n == NSmall(a[3], 0, 20000) IN
         Out(<<XS(SubSeq(t, 1, IF n = 0 THEN 0 ELSE Min(n - 1, Len(t)))), XI(Len(t)), XI(1)>>, {}, AllFlags, NoErr)
    [] f = "oput" -> Out(<<XS(Format(F, m, x, StreamFmt(F, NSmall(a[2], 0, 7), NSmall(a[3], 0, 60))))>>, {}, AllFlags, NoErr)
    [] f = "decoded" -> IF IsFin(x) THEN Out(<<XS(DecodedText(F, x))>>, {}, AllFlags, NoErr) ELSE Out(<<XAny>>, {}, AllFlags, NoErr)
    [] f \in BClassOps -> LET G == BClassFmt(f) IN Pure(<<XI(BClassify(G, x)), XI(BClassMask(G, x))>>)
    [] f = "mconst" -> LET k == NSmall(a[1], 0, 12) + 1 IN Out(<<XConst(F128, k), XConst(F64, k), XConst(F32, k)>>, {}, {}, NoErr)
    [] f = "mhuge" -> Pure([i \in 1..4 |-> XD(Inf(0))])
    [] f = "mnan" -> Pure(<<XNaN>>)
    [] f \in LibmOps -> MathOut(F, f, m, x, IF f \in Libm2 THEN y ELSE x)
    [] OTHER -> Loose(<<>>)

---------------------------------------------------------------------------
\* does result value v (trace encoding) meet expectation x?  Returns the set of failed aspects.
JudgeOne(x, v) ==
  CASE x.t = "any" -> {}
    [] x.t = "i" -> IF v = x.n THEN {} ELSE {"value"}
    [] x.t = "s" -> IF v = x.s THEN {} ELSE {"value"}
    [] x.t = "n" -> LET n == Ic(v) IN IF n.n = x.v.n /\ (n.n = Zero0 \/ n.s = x.v.s) THEN {} ELSE {"value"}
    [] x.t = "o" -> LET d == Dc(v) IN IF \E e \in x.S : SameDatum(e, d) THEN {} ELSE {"value"}
    [] x.t = "b" -> IF SameBin(x.d, Dc(v)) THEN {} ELSE {"value"}
    [] x.t = "r" -> JudgeReal(x, Dc(v))
    [] x.t = "v" -> LET d == Dc(v) IN IF \E e \in x.S : SameValue(e, d) THEN {} ELSE {"value"}
    [] x.t = "d" -> LET d == Dc(v) IN
         IF ~SameValue(x.d, d) THEN {"value"} ELSE IF x.q /\ IsFin(d) /\ d.e # x.d.e THEN {"quantum"} ELSE {}
    [] OTHER -> {"value"}
Judge(xs, vs) == IF xs = <<>> THEN {} ELSE IF Len(xs) # Len(vs) THEN {"value"} ELSE UNION {JudgeOne(xs[i], vs[i]) : i \in 1..Len(xs)}

FlagSet(n) == (IF n % 2 = 1 THEN {"I"} ELSE {}) \cup (IF (n \div 4) % 2 = 1 THEN {"Z"} ELSE {})
              \cup (IF (n \div 8) % 2 = 1 THEN {"O"} ELSE {}) \cup (IF (n \div 16) % 2 = 1 THEN {"U"} ELSE {})
              \cup (IF (n \div 32) % 2 = 1 THEN {"X"} ELSE {})
ErrnoName(pre, post) == IF post = pre THEN "no" ELSE IF post = 33 THEN "dom" ELSE IF post = 34 THEN "range" ELSE "bad"
\* errno written with the value it already had is indistinguishable from not written
ErrnoOk(en, pre, post) == ErrnoName(pre, post) \in en \/ (pre = post /\ ((pre = 33 /\ "dom" \in en) \/ (pre = 34 /\ "range" \in en)))

\* setround / getround act on the rounding direction
RoundCall(f, m, a) ==
  IF f = "setround" THEN
    LET v == Ic(a[1])  ok == v.s = 0 /\ NCmp(v.n, <<4>>) <= 0 IN
    [ret |-> IF ok THEN {0} ELSE {}, rnd |-> IF ok THEN NToInt(v.n) ELSE m, ok |-> ok]
  ELSE [ret |-> {m}, rnd |-> m, ok |-> TRUE]

\* these may hand back an operand's own encoding
CopyOps == {"neg", "fabs", "copysign", "nextafter", "nexttoward", "fmaxmag", "fminmag", "remainder"} \cup LibmOps
\* NaN payloads are canonical after these
BidOps == {"add", "sub", "mul", "div", "to32", "to64", "to128"}
NaNValue(v) == v[1] \in {QNAN, SNAN}

OutcomeAspects == {"value", "ulp", "quantum", "must", "spur", "errno", "reading"}
\* a wrong result for an operand in an unusual encoding (ev.i) is also a wrong reading of that operand
Reading(ev, b) == IF ev.i = 1 /\ b # {} THEN b \cup {"reading"} ELSE b
Seq2Set(q) == {q[i] : i \in 1..Len(q)}
\* against outcome o, which is looked at only where it is needed
FailedBy(o, ev, pre, asp) ==
  LET post == ev.q  IN
  IF ev.c # 0 THEN {"crash"}
  ELSE IF ev.f \in {"setround", "getround"} THEN
    LET r == RoundCall(ev.f, pre[1], ev.a) IN
      (IF r.ok THEN (IF ev.r[1] \in r.ret THEN {} ELSE {"rvalue"}) ELSE IF ev.r[1] # 0 THEN {} ELSE {"rvalue"})
      \cup (IF post[1] = r.rnd THEN {} ELSE {"round"})
      \cup (IF post[2] = pre[2] THEN {} ELSE {"spur"})
      \cup (IF post[4] = pre[4] THEN {} ELSE {"brm"})
      \cup (IF post[3] = pre[3] THEN {} ELSE {"errno"})
  ELSE LET pf == FlagSet(pre[2])  qf == FlagSet(post[2]) IN
      (IF pf \subseteq qf THEN {} ELSE {"sticky"})
      \cup (IF post[3] = 0 /\ pre[3] # 0 THEN {"errno0"} ELSE {})
      \cup (IF post[1] = pre[1] THEN {} ELSE {"round"})
      \cup (IF post[4] = pre[4] THEN {} ELSE {"brm"})
      \cup (IF ev.k = 1 \/ (ev.f \in CopyOps /\ ev.i = 1) \/ (ev.f \notin BidOps /\ NaNValue(ev.r[1])) THEN {} ELSE {"canon"})
      \cup IF asp \cap OutcomeAspects = {} THEN {} ELSE
             Reading(ev, Judge(o.r, ev.r))
             \cup (IF o.must \subseteq qf THEN {} ELSE {"must"})
             \cup (IF qf \subseteq (pf \cup o.must \cup o.may) THEN {} ELSE {"spur"})
             \cup (IF ErrnoOk(o.en, pre[3], post[3]) THEN {} ELSE {"errno"})
(* All failed aspects (among asp) of one call.  pre, post: <<mode, flags, errno, brm>> *)
Failed(ev, pre, asp) == FailedBy(Outcome(ev.f, ev.w, Direction(ev.f, pre), ev.a), ev, pre, asp)
=============================================================================
