------------------------------- MODULE Binary -------------------------------
(* Binary floating types (float, double, x86 long double, __float128) and their conversion to and from decimal.
   A binary number is a record [k, s, e, c] like a decimal one with value (-1)^s * c * 2^e. *)
EXTENDS Ops

\* a binary format: p bits, exponents emin..emax of the integral significand
B32  == [p |-> 24,  emin |-> -149,   emax |-> 104]
B64  == [p |-> 53,  emin |-> -1074,  emax |-> 971]
B80  == [p |-> 64,  emin |-> -16445, emax |-> 16320]
B128 == [p |-> 113, emin |-> -16494, emax |-> 16271]

Two(k) == PowN(<<2>>, k)
\* bits of a natural number; 2^33219 < 10^10000
RECURSIVE BitsFrom(_, _, _)
BitsFrom(n, b, t) == IF NCmp(n, t) < 0 THEN b ELSE BitsFrom(n, b + 1, NAdd(t, t))
BitLen(n) == IF n = Zero0 THEN 0 ELSE LET b == ((NDigits(n) - 1) * 33219) \div 10000 IN BitsFrom(n, b, Two(b))

\* binary to decimal: exact value, rounded once
FromBin(F, m, x) ==
  IF IsNaN(x) THEN NaNResult(<<x>>)
  ELSE IF IsInf(x) THEN Just(x)
  ELSE IF x.c = Zero0 THEN Just(Fin(x.s, Zero0, 0))
  ELSE IF x.e >= 0 THEN Round(F, m, x.s, NMul(x.c, Two(x.e)), 0, 0, 0)
  ELSE Round(F, m, x.s, NMul(x.c, PowN(<<5>>, -x.e)), x.e, 0, 0)

\* (n / d rounded to format G); n, d natural, n > 0
RoundBin(G, m, s, n, d) ==
  LET t == BitLen(n) - BitLen(d)          \* 2^(t-1) < n/d < 2^(t+1)
      big == IF t >= 0 THEN NCmp(n, NMul(d, Two(t))) >= 0 ELSE NCmp(NMul(n, Two(-t)), d) >= 0
      lg == IF big THEN t ELSE t - 1        \* floor of the logarithm
      e == Max(lg - G.p + 1, G.emin)
      n1 == IF e < 0 THEN NMul(n, Two(-e)) ELSE n
      d1 == IF e > 0 THEN NMul(d, Two(e)) ELSE d
      qr == NDivMod(n1, d1)
      k == NCmp(NAdd(qr[2], qr[2]), d1)
      h == IF qr[2] = Zero0 THEN 0 ELSE IF k < 0 THEN 1 ELSE IF k = 0 THEN 2 ELSE 3
      c == IF RoundsUp(m, s, NOdd(qr[1]), h) THEN NAdd(qr[1], One) ELSE qr[1]
      over == NCmp(c, Two(G.p)) >= 0
      c1 == IF over THEN Two(G.p - 1) ELSE c
      e1 == IF over THEN e + 1 ELSE e
      tiny == lg < G.emin + G.p - 1
  IN IF e1 > G.emax
     THEN [d |-> IF m = ZERO \/ (m = UP /\ s = 1) \/ (m = DOWN /\ s = 0) THEN Fin(s, NSub(Two(G.p), One), G.emax) ELSE Inf(s), fl |-> {"O", "X"}]
     ELSE [d |-> Fin(s, c1, IF c1 = Zero0 THEN 0 ELSE e1), fl |-> IF h = 0 THEN {} ELSE IF tiny THEN {"U", "X"} ELSE {"X"}]
\* decimal to binary, m the binary direction.  Out of every binary range: no need to expand
ToBin(G, m, x) ==
  IF IsNaN(x) THEN NaNResult(<<x>>)
  ELSE IF IsInf(x) THEN Just(x)
  ELSE IF x.c = Zero0 THEN Just(Fin(x.s, Zero0, 0))
  ELSE IF x.e >= 0 THEN RoundBin(G, m, x.s, NShl(x.c, x.e), One)
  ELSE RoundBin(G, m, x.s, x.c, NShl(One, -x.e))
\* the same binary number
SameBin(x, y) == CASE x.k = QNAN -> y.k = QNAN
                   [] x.k = INF -> y.k = INF /\ x.s = y.s
                   [] OTHER -> y.k = FIN /\ x.s = y.s /\ x.c = y.c /\ (x.c = Zero0 \/ x.e = y.e)
=============================================================================
