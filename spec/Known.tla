-------------------------------- MODULE Known --------------------------------
(* Findings recorded in ../known-findings.txt: calls on which the library is known to break a property and
   was not repaired.  KnownFinding(ev, b) names the finding that covers event ev failing aspects b, or is "". *)
EXTENDS Libdfp
\* F1: fmod of a finite number by an infinity returns NaN with a domain error instead of the number (pinned by tests/fmod.input)
F1(ev, b) == ev.f = "fmod" /\ IsFin(Dc(ev.a[1])) /\ IsInf(Dc(ev.a[2])) /\ b \subseteq {"value", "spur", "errno", "reading"}
             /\ ev.c = 0 /\ IsNaN(Dc(ev.r[1]))
\* F2: strtod and wcstod flush a subnormal number to zero when the exponent written after the E is itself below the
\* least one, however many integer digits precede it (pinned by tests/test-strtod.c)
F2Text(F, s, r) == LET t == Scan(s) IN
  /\ t.kind = "num" /\ t.c # Zero0 /\ t.we < F.qmin /\ t.e + NDigits(t.c) - 1 < F.qmin + F.p - 1
  /\ IsZero(r) /\ r.s = t.s
F2(ev, b) ==
  /\ ev.f \in {"strtod", "wcstod", "iget", "iget2", "lstrtod", "lwcstod"} /\ ev.c = 0 /\ b \subseteq {"value", "spur", "errno", "reading"}
  /\ LET F == Fmt(ev.w)  s == IF ev.f \in {"lstrtod", "lwcstod"} THEN FromLocale(Locales[NSmall(ev.a[2], 0, 6) + 1], ev.a[1], 1) ELSE ev.a[1]
         m == ev.p[1]  r == Dc(ev.r[1]) IN
     IF ev.f # "iget2" THEN F2Text(F, s, r)
     ELSE LET x == Get2Out(F, m, s).r
              u == SubSeq(s, Scan(s).end + 1, Len(s))
              ok1 == JudgeOne(x[1], ev.r[1]) = {}  ok2 == JudgeOne(x[2], ev.r[2]) = {} IN
          /\ (ok1 \/ F2Text(F, s, r)) /\ (ok2 \/ F2Text(F, u, Dc(ev.r[2])))
          /\ JudgeOne(x[3], ev.r[3]) = {} /\ JudgeOne(x[4], ev.r[4]) = {}
\* F3: decimal numbers of order 10^-4951, in binary128 subnormal, next to a point half way between two of its numbers,
\* come out one unit off (an entry for 10^-4984 in libgcc's table)
F3(ev, b) ==
  /\ ev.f = "tof128" /\ ev.w = 128 /\ ev.c = 0 /\ b \subseteq {"value", "must"}
  /\ LET x == Dc(ev.a[1])  e == ToBin(B128, Direction(ev.f, ev.p), x).d  r == Dc(ev.r[1]) IN
     /\ IsFin(x) /\ x.c # Zero0 /\ x.e + NDigits(x.c) = -4950
     /\ IsFin(r) /\ r.s = e.s /\ r.e = e.e /\ (r.c = NAdd(e.c, One) \/ e.c = NAdd(r.c, One))
KnownFinding(ev, b) == CASE F1(ev, b) -> "F1" [] F2(ev, b) -> "F2" [] F3(ev, b) -> "F3" [] OTHER -> ""
=============================================================================
