------------------------------- MODULE MCText -------------------------------
(* The text part of the specification against the grammar and against the meaning of what is written, on a small format
   and for every short text, number and conversion. *)
EXTENDS Text, TLC
CONSTANTS Len0, P, QLow, QMax, Part
F == [p |-> P, qmin |-> -QLow, qmax |-> QMax, w |-> 0]
Alphabet == {32, 43, 45, 48, 53, 46, 101}                             \* " +-05.e"
Words == {<<105, 110, 102>>, <<73, 78, 102>>, <<105, 110, 105, 116, 121>>, <<105, 110, 105, 116>>, <<110, 97, 78>>, <<40>>, <<41>>, <<95, 49>>, <<43>>, <<32>>, <<110, 97>>}
Finite == {Fin(s, NFromInt(c), e) : s \in {0, 1}, c \in 0..(10^P - 1), e \in (-QLow)..QMax}
Data == Finite \cup {Inf(0), Inf(1), QNaN}
\* conversions: flags, width, precision, letter
Flag(c) == IF c = 0 THEN {} ELSE {c}
Specs == {[fl |-> fl, width |-> w, prec |-> p, conv |-> c] :
            fl \in {{}, {45}, {43}, {32}, {35}, {48}, {43, 48}, {45, 35}}, w \in {0, 9}, p \in {-1, 0, 1, 3}, c \in {97, 101, 102, 103, 65, 71}}
VARIABLES s, x, m, f, go
vars == <<s, x, m, f, go>>
NoSpec == [fl |-> {}, width |-> 0, prec |-> -1, conv |-> 97]
Init == CASE Part \in {"scan", "words", "group"} -> s = <<>> /\ x = QNaN /\ m = NEAR /\ f = NoSpec /\ go = TRUE
          [] OTHER -> s = <<>> /\ x \in Data /\ m \in Modes /\ f = NoSpec /\ go = FALSE
Next == CASE Part = "scan" -> Len(s) < Len0 /\ \E c \in Alphabet : s' = Append(s, c) /\ UNCHANGED <<x, m, f, go>>
          [] Part = "words" -> Len(s) < Len0 /\ \E w \in Words : s' = s \o w /\ UNCHANGED <<x, m, f, go>>
          [] Part = "group" -> Len(s) < 4 * Len0 /\ s' = Append(s, 48 + ((7 * Len(s)) % 10)) /\ UNCHANGED <<x, m, f, go>>
          [] OTHER -> ~go /\ f' \in Specs /\ go' = TRUE /\ UNCHANGED <<s, x, m>>
Spec == Init /\ [][Next]_vars
---------------------------------------------------------------------------
\* the grammar, as C has it: white space, sign, then digits with at most one point and perhaps an exponent, or a word
RECURSIVE AllIn(_, _, _, _)
AllIn(t, i, j, S) == i > j \/ (t[i] \in S /\ AllIn(t, i + 1, j, S))
IsDigits(t, i, j) == AllIn(t, i, j, Digit)                             \* t[i..j], possibly none
IsMantissa(t, i, j) ==      \* digits and one point at most; a digit at least
  /\ \E k \in i..j : t[k] \in Digit
  /\ IsDigits(t, i, j) \/ \E k \in i..j : t[k] = 46 /\ IsDigits(t, i, k - 1) /\ IsDigits(t, k + 1, j)
IsExponent(t, i, j) == i < j /\ t[i] \in {101, 69} /\ \E k \in {i + 1, i + 2} : k <= j /\ (k = i + 1 \/ t[i + 1] \in {43, 45}) /\ IsDigits(t, k, j)
IsNumber(t, i, j) == \E k \in i..j : IsMantissa(t, i, k) /\ (k = j \/ IsExponent(t, k + 1, j))
LowerText(t, i, j) == [k \in 1..(j - i + 1) |-> Lower(t[i + k - 1])]
IsInfWord(t, i, j) == LowerText(t, i, j) \in {TInf, TInf \o TInity}
IsNanWord(t, i, j) == LowerText(t, i, Min(j, i + 2)) = TNan /\ (j = i + 2 \/ (j > i + 3 /\ t[i + 3] = 40 /\ t[j] = 41 /\ AllIn(t, i + 4, j - 1, Alnum)))
\* t[1..j] is a subject sequence after white space
Starts(t) == {i \in 1..(Len(t) + 1) : AllIn(t, 1, i - 1, Space)}
Subject(t, j, Is(_, _, _)) == \E i \in Starts(t), sg \in {0, 1} : i + sg <= j /\ (sg = 1 => t[i] \in {43, 45}) /\ Is(t, i + sg, j)
Ends(t, Is(_, _, _)) == {j \in 1..Len(t) : Subject(t, j, Is)}
Longest(S) == CHOOSE j \in S : \A k \in S : k <= j
ScanOk ==
  Part \in {"scan", "words"} =>
  LET r == Scan(s)
      num == Ends(s, IsNumber)  inf == Ends(s, IsInfWord)  nan == Ends(s, IsNanWord)
      all == num \cup inf \cup nan
  IN IF all = {} THEN r.kind = "none" /\ r.end = 0
     ELSE LET j == Longest(all) IN
          /\ r.end = j
          /\ r.kind = (IF j \in num THEN "num" ELSE IF j \in inf THEN "inf" ELSE "nan")
          /\ r.s = (IF \E k \in 1..j : s[k] = 45 /\ AllIn(s, 1, k - 1, Space) THEN 1 ELSE 0)
\* the value: one digit more to the text before any exponent is ten times the value plus it
ValueOk ==
  Part = "scan" =>
  LET r == Scan(s) IN
  r.kind = "num" /\ r.end = Len(s) =>
    LET k == SkipSet(s, 1, Space)  body == SubSeq(s, k, Len(s))
        hasE == \E i \in 1..Len(body) : body[i] = 101
        hasDot == \E i \in 1..Len(body) : body[i] = 46
        more == Scan(s \o <<53>>)
    IN /\ (~hasE => more.c = NAdd(NMul(r.c, <<10>>), <<5>>) /\ more.e = (IF hasDot THEN r.e - 1 ELSE r.e))
       /\ (~hasE => LET z == Scan(s \o <<101, 45, 53>>) IN z.c = r.c /\ z.e = r.e - 5)
       /\ (~hasE => LET z == Scan(s \o <<101, 43, 48, 53>>) IN z.c = r.c /\ z.e = r.e + 5)
       /\ (hasE => more.c = r.c)
---------------------------------------------------------------------------
\* what Format writes, read without limit of precision
Unlimited(t) == LET r == Scan(t) IN IF r.kind = "num" THEN Fin(r.s, r.c, r.e) ELSE IF r.kind = "inf" THEN Inf(r.s) ELSE QNaN
NDig(t) == Cardinality({i \in 1..Len(t) : t[i] \in Digit})
PosOf(t, c) == IF \E i \in 1..Len(t) : t[i] = c THEN CHOOSE i \in 1..Len(t) : t[i] = c ELSE 0
AfterPoint(t) == LET d == PosOf(t, 46) IN IF d = 0 THEN 0 ELSE LET e == SkipSet(t, d + 1, Digit) IN e - d - 1
\* v is x rounded in direction m to a multiple of 10^u
OneAt(u) == Fin(0, One, u)
Rounded(v, a, u) ==
  LET ex == CmpMag(v, a) = 0
      \* |v| - |a| against 10^u and half of it: scale everything
      lo == Min(Min(v.e, a.e), u) - 1
      av == NShl(v.c, v.e - lo)  aa == NShl(a.c, a.e - lo)  un == NShl(One, u - lo)
      above == NCmp(av, aa) > 0
      diff == IF above THEN NSub(av, aa) ELSE NSub(aa, av)
      h == NCmp(NMul(diff, <<2>>), un)
      q == NDivMod(av, un)
  IN /\ q[2] = Zero0
     /\ NCmp(diff, un) < 0
     /\ (ex \/ CASE m = ZERO -> ~above [] m = UP -> above = (a.s = 0) [] m = DOWN -> above = (a.s = 1)
                 [] m = AWAY -> h < 0 \/ (h = 0 /\ above) [] OTHER -> h < 0 \/ (h = 0 /\ ~NOdd(q[1])))
Trim(t) == SelectSeq(t, LAMBDA c : c # 32)
FormatOk ==
  Part = "format" /\ go =>
  LET t == Format(F, m, x, f)  b == Format(F, m, x, [f EXCEPT !.width = 0])  v == Unlimited(t)  lc == Lower(f.conv)
      PP == IF f.prec < 0 THEN 6 ELSE f.prec
      lower == [i \in 1..Len(t) |-> Lower(t[i])]
  IN /\ Len(t) = Max(f.width, Len(b))
     \* padding: on the right with a minus, zeros after the sign with a 0, otherwise spaces on the left
     /\ (IF 45 \in f.fl THEN SubSeq(t, 1, Len(b)) = b /\ AllIn(t, Len(b) + 1, Len(t), {32})
         ELSE IF 48 \in f.fl /\ IsFin(x) THEN AllIn(t, (IF t[1] \in Digit THEN 1 ELSE 2), Len(t), Digit \cup {46, 101, 69, 43, 45})
         ELSE SubSeq(t, Len(t) - Len(b) + 1, Len(t)) = b /\ AllIn(t, 1, Len(t) - Len(b), {32}))
     /\ (x.s = 0 /\ ~IsNaN(x) => (43 \in f.fl <=> 43 \in {b[1]}) /\ (32 \in f.fl /\ 43 \notin f.fl <=> b[1] = 32))
     /\ (f.conv = lc \/ ~\E i \in 1..Len(t) : t[i] \in 97..122) /\ (f.conv # lc \/ ~\E i \in 1..Len(t) : t[i] \in 65..90)
     /\ IF IsNaN(x) THEN IsNaN(v) ELSE IF IsInf(x) THEN v = x
        ELSE IF ~IsFin(v) THEN FALSE
        ELSE /\ v.s = x.s
             /\ (35 \in f.fl /\ (f.conv # 97 /\ f.conv # 65) => 46 \in {t[i] : i \in 1..Len(t)})
             /\ CASE lc = 102 -> AfterPoint(t) = PP /\ Rounded(v, x, -PP) /\ PosOf(lower, 101) = 0
                  [] lc = 101 -> /\ AfterPoint(t) = PP /\ PosOf(lower, 101) > 0
                                 /\ (IF IsZero(x) THEN IsZero(v) ELSE
                                      \* rounded at the last digit, as the exponent of the unrounded number has it
                                      Rounded(v, x, AdjExp(x) - PP))
                                 /\ (~IsZero(x) => AdjExp(v) \in {AdjExp(x), AdjExp(x) + 1} /\ NDigits(v.c) = PP + 1)
                  [] lc = 103 -> LET PG == IF PP = 0 THEN 1 ELSE PP IN
                                 /\ (IF IsZero(x) THEN IsZero(v) ELSE Rounded(v, x, AdjExp(x) - PG + 1))
                                 /\ (~IsZero(x) => (PosOf(lower, 101) > 0) = (AdjExp(v) < -4 \/ AdjExp(v) >= PG))
                                 /\ (35 \notin f.fl => AfterPoint(t) = 0 \/ t[PosOf(t, 46) + AfterPoint(t)] # 48)
                  [] OTHER -> IF f.prec <= 0 /\ f.prec # 0 THEN CmpMag(v, x) = 0 /\ v.e = x.e
                              ELSE LET PA == IF f.prec = 0 THEN 1 ELSE f.prec IN
                                   IF IsZero(x) \/ PA >= P \/ NDigits(x.c) <= PA THEN CmpMag(v, x) = 0 /\ v.e = x.e ELSE Rounded(v, x, AdjExp(x) - PA + 1)
\* written in style a and read back: the same datum; and e with every digit gives the number
TripOk ==
  Part = "format" /\ go =>
  LET a == Format(F, m, x, NoSpec)  e == Format(F, m, x, [NoSpec EXCEPT !.conv = 101, !.prec = P - 1])
      ra == ReadOut(F, m, a)  re == ReadOut(F, m, e)
  IN IF IsNaN(x) THEN IsNaN(ra.r[1].d) ELSE ra.r[1].d = x /\ ra.fl = {} /\ ra.r[2].n = Len(a) /\ (IsFin(x) => CmpMag(re.r[1].d, x) = 0 /\ re.fl = {})
\* what strfrom stores is the front of the text; the conversion text comes out of ParseFmt as it went in
NatT(n) == NatText(NFromInt(n))
RECURSIVE SetText(_)
SetText(S) == IF S = {} THEN <<>> ELSE LET c == CHOOSE c \in S : TRUE IN <<c>> \o SetText(S \ {c})
SpecText(g) == SetText(g.fl) \o (IF g.width > 0 THEN NatT(g.width) ELSE <<>>) \o (IF g.prec >= 0 THEN <<46>> \o NatT(g.prec) ELSE <<>>) \o <<g.conv>>
ParseOk == Part = "format" /\ go => ParseFmt(SpecText(f)) = f
StrfromOk ==
  Part = "format" /\ go /\ f.fl = {} /\ f.width = 0 =>
    LET t == Format(F, m, x, f) IN
    \A n \in {0, 1, 3, Len(t), Len(t) + 1, Len(t) + 5} : LET r == StrfromOut(F, m, x, <<37>> \o SpecText(f), n) IN
       r[2] = Len(t) /\ Len(r[1]) = (IF n = 0 THEN 0 ELSE Min(n - 1, Len(t))) /\ r[1] = SubSeq(t, 1, Len(r[1]))
\* in a locale: the same text but for the radix character, and as wide; it reads as the text of "C" does
LocaleOk ==
  Part = "format" /\ go /\ m = NEAR => LET t == Format(F, m, x, f) IN
    \A i \in 1..Len(Locales) : LET L == Locales[i]  u == FormatIn(L, F, m, x, f)  b == FromLocale(L, u, 1) IN
      /\ b = t /\ (46 \in {t[j] : j \in 1..Len(t)} => Len(u) = Len(t) + Len(L.rx) - 1)
      /\ Bytes(L, b, Scan(b).end) = (IF Scan(t).end > 0 /\ PosOf(SubSeq(t, 1, Scan(t).end), 46) > 0 THEN Scan(t).end + Len(L.rx) - 1 ELSE Scan(t).end)
\* groups: separators where the sizes, added up from the right, say, and nowhere else
RECURSIVE CumSize(_, _)
CumSize(g, j) == IF j = 0 THEN 0 ELSE LET k == g[Min(j, Len(g))]  c == CumSize(g, j - 1) IN IF k = 0 \/ c = -1 THEN -1 ELSE c + k
Marks(t) == {Cardinality({k \in i..Len(t) : t[k] # 1}) : i \in {k \in 1..Len(t) : t[k] = 1}}
GroupOk ==
  Part = "group" => \A i \in 1..Len(Locales) : LET g == Locales[i].grp  t == Grouped(<<1>>, g, s)  cum == {CumSize(g, j) : j \in 1..Len(s)} \ {-1} IN
    /\ SelectSeq(t, LAMBDA c : c # 1) = s
    /\ Marks(t) = {k \in cum : 0 < k /\ k < Len(s)}
    /\ Len(t) = Len(s) + Seps(g, Len(s), 0)
=============================================================================
