-------------------------------- MODULE Text --------------------------------
(* Text to decimal (strtod, wcstod, stream input) and decimal to text (printf, strfrom, stream output,
   decoded).  Text is a sequence of character codes.  The locale is "C" except where it says otherwise. *)
EXTENDS Ops

Space == {32, 9, 10, 11, 12, 13}
Digit == 48..57
Alnum == Digit \cup 65..90 \cup 97..122 \cup {95}
Lower(c) == IF c \in 65..90 THEN c + 32 ELSE c
RECURSIVE SkipSet(_, _, _)
SkipSet(s, i, S) == IF i <= Len(s) /\ s[i] \in S THEN SkipSet(s, i + 1, S) ELSE i
At(s, i) == IF i <= Len(s) THEN s[i] ELSE 0
Match(s, i, word) == i + Len(word) - 1 <= Len(s) /\ \A k \in 1..Len(word) : Lower(s[i + k - 1]) = word[k]
TInf == <<105, 110, 102>>  TInity == <<105, 110, 105, 116, 121>>  TNan == <<110, 97, 110>>

RECURSIVE FoldNum(_, _, _)
FoldNum(s, i, acc) == IF i > Len(s) THEN acc ELSE FoldNum(s, i + 1, acc * 10 + (s[i] - 48))
Far == 9999999     \* exponents beyond this are all alike
\* value of a nonempty digit string, saturating at Far
CapNum(s) == LET k == SkipSet(s, 1, {48}) IN IF Len(s) - k + 1 > 6 THEN Far ELSE FoldNum(s, k, 0)
DigitsOf(s) == LET k == SkipSet(s, 1, {48}) IN [i \in 1..(Len(s) - k + 1) |-> s[k + i - 1] - 48]

\* the longest prefix of s that is a decimal constant: [kind, s, c, e, end] (end: characters consumed)
Scan(s) ==
  LET i0 == SkipSet(s, 1, Space)
      sg == IF At(s, i0) = 45 THEN 1 ELSE 0
      i1 == IF At(s, i0) \in {43, 45} THEN i0 + 1 ELSE i0
      d1 == SkipSet(s, i1, Digit)
      dot == At(s, d1) = 46
      d2 == IF dot THEN SkipSet(s, d1 + 1, Digit) ELSE d1
      nf == IF dot THEN d2 - d1 - 1 ELSE 0
      ni == d1 - i1
  IN IF ni + nf > 0 THEN
       LET isE == At(s, d2) \in {101, 69}
           y == IF isE THEN (IF At(s, d2 + 1) \in {43, 45} THEN d2 + 2 ELSE d2 + 1) ELSE d2
           z == IF isE THEN SkipSet(s, y, Digit) ELSE y
           has == isE /\ z > y
           ev == IF has THEN (IF At(s, d2 + 1) = 45 THEN -CapNum(SubSeq(s, y, z - 1)) ELSE CapNum(SubSeq(s, y, z - 1))) ELSE 0
           digs == SubSeq(s, i1, d1 - 1) \o (IF dot THEN SubSeq(s, d1 + 1, d2 - 1) ELSE <<>>)
       IN [kind |-> "num", s |-> sg, c |-> NFromDigits(DigitsOf(digs)), e |-> ev - nf, we |-> ev, end |-> (IF has THEN z ELSE d2) - 1]
     ELSE IF Match(s, i1, TInf) THEN [kind |-> "inf", s |-> sg, end |-> (IF Match(s, i1 + 3, TInity) THEN i1 + 8 ELSE i1 + 3) - 1]
     ELSE IF Match(s, i1, TNan) THEN
       LET p == i1 + 3
           q == IF At(s, p) = 40 THEN SkipSet(s, p + 1, Alnum) ELSE p
       IN [kind |-> "nan", s |-> sg, end |-> (IF At(s, p) = 40 /\ At(s, q) = 41 THEN q + 1 ELSE p) - 1]
     ELSE [kind |-> "none", s |-> 0, end |-> 0]

\* the number written, rounded: exponents far outside the range are brought near it first
Read(F, m, s, c, e) ==
  IF c = Zero0 THEN Just(Fin(s, c, Clamp(F, e)))
  ELSE LET adj == e + NDigits(c) - 1
           top == F.qmax + F.p + 10
           bot == F.qmin - 10
           e1 == IF adj > top THEN e - (adj - top) ELSE IF adj < bot THEN e + (bot - adj) ELSE e
       IN Round(F, m, s, c, e1, 0, e1)
ReadOut(F, m, s) ==
  LET t == Scan(s) IN
  CASE t.kind = "num" ->
         LET r == Read(F, m, t.s, t.c, t.e)
             direct == NDigits(t.c) <= F.p /\ t.e >= F.qmin /\ t.e <= F.qmax IN
         [r |-> <<[t |-> "d", d |-> r.d, q |-> direct], [t |-> "i", n |-> t.end]>>, fl |-> r.fl,
          en |-> IF "O" \in r.fl THEN {"range"} ELSE IF "U" \in r.fl THEN {"no", "range"} ELSE {"no"}]
    [] t.kind = "inf" -> [r |-> <<[t |-> "d", d |-> Inf(t.s), q |-> FALSE], [t |-> "i", n |-> t.end]>>, fl |-> {}, en |-> {"no"}]
    [] t.kind = "nan" -> [r |-> <<[t |-> "d", d |-> QNaN, q |-> FALSE], [t |-> "i", n |-> t.end]>>, fl |-> {}, en |-> {"no"}]
    [] OTHER -> [r |-> <<[t |-> "d", d |-> Fin(0, Zero0, 0), q |-> FALSE], [t |-> "i", n |-> 0]>>, fl |-> {}, en |-> {"no"}]

---------------------------------------------------------------------------
\* text of naturals
Rep(c, n) == [i \in 1..(IF n < 0 THEN 0 ELSE n) |-> c]
Chars(ds) == [i \in 1..Len(ds) |-> ds[i] + 48]
NatText(c) == IF c = Zero0 THEN <<48>> ELSE Chars(NDigitSeq(c))
\* at least k digits, padded with zeros on the left
NatTextMin(c, k) == LET t == IF c = Zero0 THEN <<>> ELSE Chars(NDigitSeq(c)) IN Rep(48, k - Len(t)) \o t

\* parsed conversion specification: flags, width, precision (-1: missing), conversion letter
ParseFmt(s) ==
  LET a == IF At(s, 1) = 33 THEN 2 ELSE 1            \* '!': width and precision passed as arguments
      b == SkipSet(s, a, {45, 43, 32, 35, 48, 39})
      w == SkipSet(s, b, Digit)
      dot == At(s, w) = 46
      p == IF dot THEN SkipSet(s, w + 1, Digit) ELSE w
  IN [fl |-> {s[i] : i \in a..(b - 1)}, width |-> IF w > b THEN FoldNum(SubSeq(s, b, w - 1), 1, 0) ELSE 0,
      prec |-> IF dot THEN (IF p > w + 1 THEN FoldNum(SubSeq(s, w + 1, p - 1), 1, 0) ELSE 0) ELSE -1, conv |-> At(s, p)]

Point(alt, frac) == IF frac = <<>> THEN (IF alt THEN <<46>> ELSE <<>>) ELSE <<46>> \o frac
\* fixed notation, P digits after the point
FText(m, x, P, alt) ==
  LET v == IF x.e >= -P THEN NShl(x.c, x.e + P) ELSE RoundShift(m, x.s, x.c, -P - x.e, 0)[1]
      t == NatTextMin(v, P + 1)
  IN SubSeq(t, 1, Len(t) - P) \o Point(alt, SubSeq(t, Len(t) - P + 1, Len(t)))
\* P+1 significant digits of x (nonzero): <<coefficient, exponent of the first digit>>
ESig(m, x, P) ==
  LET n == NDigits(x.c) IN
  IF n <= P + 1 THEN <<NShl(x.c, P + 1 - n), AdjExp(x)>>
  ELSE LET r == RoundShift(m, x.s, x.c, n - P - 1, 0)[1] IN
       IF NDigits(r) > P + 1 THEN <<NShr(r, 1)[1], AdjExp(x) + 1>> ELSE <<r, AdjExp(x)>>
ExpText(E, X, mind) == <<E, IF X < 0 THEN 45 ELSE 43>> \o NatTextMin(NFromInt(Abs(X)), mind)
EText(m, x, P, alt, E, mind, zx) ==
  LET g == IF x.c = Zero0 THEN <<Zero0, zx>> ELSE ESig(m, x, P)
      t == NatTextMin(g[1], P + 1)
  IN SubSeq(t, 1, 1) \o Point(alt, SubSeq(t, 2, Len(t))) \o ExpText(E, g[2], mind)
RECURSIVE StripZeros(_)
StripZeros(t) == IF t[Len(t)] = 48 THEN StripZeros(SubSeq(t, 1, Len(t) - 1)) ELSE IF t[Len(t)] = 46 THEN SubSeq(t, 1, Len(t) - 1) ELSE t
\* style g: fixed or exponent notation by the exponent after rounding; trailing zeros go unless alt
GText(m, x, P0, alt, E) ==
  LET P == IF P0 = 0 THEN 1 ELSE P0
      X == IF x.c = Zero0 THEN 0 ELSE ESig(m, x, P - 1)[2]
  IN IF P > X /\ X >= -4 THEN LET t == FText(m, x, P - 1 - X, alt) IN IF alt \/ P - 1 - X = 0 THEN t ELSE StripZeros(t)
     ELSE LET t == EText(m, x, P - 1, alt, E, 2, 0)
              k == SkipSet(t, 1, Digit \cup {46}) IN
          IF alt \/ P = 1 THEN t ELSE StripZeros(SubSeq(t, 1, k - 1)) \o SubSeq(t, k, Len(t))
\* style a: all digits of the coefficient; a precision first rounds the coefficient
AText(F, m, x, P0, alt, E) ==
  LET P == IF P0 = 0 THEN 1 ELSE P0         \* as the tests have it; C23 takes 0 for missing
      n == NDigits(x.c)
      cut == P > 0 /\ P < F.p /\ n > P
      g == ESig(m, x, P - 1)
      y == IF cut THEN Fin(x.s, g[1], g[2] - P + 1) ELSE x
      ny == IF y.c = Zero0 THEN 1 ELSE NDigits(y.c)
  IN IF -(ny + 5) <= y.e /\ y.e <= 0 THEN FText(m, y, -y.e, alt)
     ELSE EText(m, y, ny - 1, alt, E, 1, y.e)

Upper(t) == [i \in 1..Len(t) |-> IF t[i] \in 97..122 THEN t[i] - 32 ELSE t[i]]
Body(F, m, x, f) ==
  LET lc == Lower(f.conv)  alt == 35 \in f.fl  P == IF f.prec < 0 THEN 6 ELSE f.prec
      t == CASE IsNaN(x) -> TNan [] IsInf(x) -> TInf
             [] lc = 102 -> FText(m, x, P, alt)
             [] lc = 101 -> EText(m, x, P, alt, 101, 2, 0)
             [] lc = 103 -> GText(m, x, P, alt, 101)
             [] OTHER -> AText(F, m, x, f.prec, alt, 101)
  IN IF lc # f.conv THEN Upper(t) ELSE t
SignText(x, f) == IF x.s = 1 THEN <<45>> ELSE IF 43 \in f.fl THEN <<43>> ELSE IF 32 \in f.fl THEN <<32>> ELSE <<>>
Format(F, m, x, f) ==
  LET sg == SignText(x, f)  b == Body(F, m, x, f)  pad == f.width - Len(sg) - Len(b) IN
  IF pad <= 0 THEN sg \o b
  ELSE IF 45 \in f.fl THEN sg \o b \o Rep(32, pad)
  ELSE IF 48 \in f.fl /\ IsFin(x) THEN sg \o Rep(48, pad) \o b
  ELSE Rep(32, pad) \o sg \o b

\* ---- locales: radix character, thousands separator and sizes of the groups from the right (0: no more groups, else
\* the last is used again); those of ../harness/locales.sh
Locales == << [rx |-> <<46>>, sep |-> <<>>, grp |-> <<0>>],
              [rx |-> <<44>>, sep |-> <<46>>, grp |-> <<3>>],
              [rx |-> <<46>>, sep |-> <<44>>, grp |-> <<3, 2>>],
              [rx |-> <<217, 171>>, sep |-> <<217, 172>>, grp |-> <<3, 3>>],
              [rx |-> <<44>>, sep |-> <<226, 128, 175>>, grp |-> <<4>>],
              [rx |-> <<44>>, sep |-> <<39>>, grp |-> <<2, 3, 0>>],
              [rx |-> <<44>>, sep |-> <<>>, grp |-> <<0>>] >>
\* an integral part in groups: none where no more digits follow; and the number of separators in one of n digits
NextG(g) == IF Len(g) > 1 THEN Tail(g) ELSE g
RECURSIVE Grouped(_, _, _)
Grouped(sep, g, t) == IF g[1] = 0 \/ Len(t) <= g[1] THEN t
  ELSE Grouped(sep, NextG(g), SubSeq(t, 1, Len(t) - g[1])) \o sep \o SubSeq(t, Len(t) - g[1] + 1, Len(t))
RECURSIVE Seps(_, _, _)
Seps(g, n, k) == IF g[1] = 0 \/ n <= g[1] THEN k ELSE Seps(NextG(g), n - g[1], k + 1)
\* a number as written in "C", brought into the locale: each separator and the radix character counts as one of the width
FormatIn(L, F, m, x, f) ==
  LET sg == SignText(x, f)  b == Body(F, m, x, f)
      k == SkipSet(b, 1, Digit)               \* end of the integral part
      group == 39 \in f.fl /\ IsFin(x) /\ L.sep # <<>>
      int == SubSeq(b, 1, k - 1)
      rest == IF At(b, k) = 46 THEN L.rx \o SubSeq(b, k + 1, Len(b)) ELSE SubSeq(b, k, Len(b))
      t == (IF group THEN Grouped(L.sep, L.grp, int) ELSE int) \o rest
      pad == f.width - Len(sg) - Len(b) - (IF group THEN Seps(L.grp, Len(int), 0) ELSE 0)
  IN IF pad <= 0 THEN sg \o t
     ELSE IF 45 \in f.fl THEN sg \o t \o Rep(32, pad)
     ELSE IF 48 \in f.fl /\ IsFin(x) THEN sg \o Rep(48, pad) \o t
     ELSE Rep(32, pad) \o sg \o t
\* text of the locale as text of "C": the radix character becomes a point, a point nothing known
RECURSIVE FromLocale(_, _, _)
FromLocale(L, s, i) == IF i > Len(s) THEN <<>>
  ELSE IF SubSeq(s, i, Min(i + Len(L.rx) - 1, Len(s))) = L.rx THEN <<46>> \o FromLocale(L, s, i + Len(L.rx))
  ELSE <<IF s[i] = 46 THEN 1 ELSE s[i]>> \o FromLocale(L, s, i + 1)
\* where in the text of the locale its first n characters end: a radix character may be several
Bytes(L, u, n) == IF \E i \in 1..n : u[i] = 46 THEN n + Len(L.rx) - 1 ELSE n

\* %[.P]c as strfrom takes it
StrfromOut(F, m, x, s, n) ==
  LET t == Format(F, m, x, ParseFmt(SubSeq(s, 2, Len(s))))
      k == IF n = 0 THEN 0 ELSE Min(n - 1, Len(t))
  IN <<SubSeq(t, 1, k), Len(t)>>

\* stream output: 1 fixed, 2 scientific, 4 uppercase; at most the format's precision, which style a ignores
StreamFmt(F, fl, prec) ==
  LET fx == fl % 2 = 1  sc == (fl \div 2) % 2 = 1  up == (fl \div 4) % 2 = 1
      l == IF fx /\ sc THEN 97 ELSE IF fx THEN 102 ELSE IF sc THEN 101 ELSE 103
  IN [fl |-> {}, width |-> 0, prec |-> IF fx /\ sc THEN -1 ELSE Min(prec, F.p), conv |-> IF up THEN l - 32 ELSE l]

\* digits of the coefficient in groups of three from the right, with signs: the debugging form
RECURSIVE Group(_)
Group(t) == IF Len(t) <= 3 THEN t ELSE Group(SubSeq(t, 1, Len(t) - 3)) \o <<44>> \o SubSeq(t, Len(t) - 2, Len(t))
DecodedText(F, x) ==
  <<IF x.s = 1 THEN 45 ELSE 43>> \o Group(NatTextMin(x.c, F.p)) \o ExpText(69, x.e, 1)

NSmall(a, lo, hi) == LET v == NToInt(SubSeq(a, 2, Len(a))) IN IF a[1] = 1 THEN lo ELSE IF Len(a) > 2 \/ v > hi THEN hi ELSE v
=============================================================================
