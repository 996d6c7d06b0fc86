----------------------------- MODULE MCMachine -----------------------------
(* Machine explored: every step the specification allows keeps the properties of steps, the judge of recorded calls
   accepts it, and the judge rejects the same step with any one thing about it changed. *)
EXTENDS Machine
CONSTANTS Width, Steps, Threads, Wide, Only     \* Only: these operations, if any
OpsU == {"sqrt", "neg", "fabs", "ceil", "rint", "nearbyint", "lrint", "lround", "fixsi", "fixudi", "to32", "to64", "to128", "fpclassify", "signbit",
  "tof32", "tof64", "fromf64", "fromf128", "nextup", "quantum", "llquantexp", "frexp", "modf", "logb", "ilogb", "llogb"}
OpsB == {"add", "sub", "mul", "div", "eq", "lt", "isless", "unord", "copysign", "fmax", "fminmag", "fdim", "nextafter", "quantize", "samequantum", "fmod", "remainder"}
OpsM == {"exp", "log", "log1p", "cbrt", "sin", "asin", "atanh", "tgamma", "pow", "atan2", "hypot"}
OpsS == {"strtod", "iget"}
Pick(S) == IF Only = {} THEN S ELSE S \cap Only
FF == Fmt(Width)
D1 == {Fin(0, Zero0, 0), Fin(1, <<1>>, 0), Fin(0, <<25>>, -1), Inf(1), QNaN, Mk(SNAN, 0, 0, Zero0), MaxFin(FF, 0), MinSub(FF, 1)}
D2 == D1 \cup {Fin(1, Zero0, 3), Fin(0, <<1>>, 0), Fin(0, <<5>>, FF.qmin), Inf(0), MaxFin(FF, 1), Fin(0, <<3>>, 2)}
Pool == IF Wide THEN D2 ELSE D1
Pool2 == IF Wide THEN Pool ELSE {Fin(1, Zero0, 0), Fin(0, <<3>>, 0), Inf(0), Mk(SNAN, 0, 0, Zero0), MinSub(FF, 0), MaxFin(FF, 0)}
MPool == IF Wide THEN D1 \cup {Fin(0, <<5>>, -1), Fin(1, <<3>>, 4)} ELSE {Fin(0, Zero0, 0), Fin(1, <<1>>, 0), Fin(0, <<25>>, -1), Inf(1), QNaN, Fin(1, <<3>>, 4)}
\* "1", "-x", "inf", " 25e-1z", "1e9999", "1e-9999"
Strings == {<<49>>, <<45, 120>>, <<105, 110, 102>>, <<32, 50, 53, 101, 45, 49, 122>>, <<49, 101, 57, 57, 57, 57>>, <<49, 101, 45, 57, 57, 57, 57>>}
Args(f) ==
  CASE f \in OpsB \/ f \in Libm2 -> {<<Enc(u), Enc(v)>> : u \in (IF f \in OpsM THEN MPool ELSE Pool), v \in (IF f \in OpsM THEN MPool ELSE Pool2)}
    [] f \in OpsM -> {<<Enc(u)>> : u \in MPool}
    [] f \in OpsS -> {<<s>> : s \in Strings}
    [] OTHER -> {<<Enc(u)>> : u \in Pool}
\* a call always has three operands as far as Outcome looks
Full(a) == a \o [i \in 1..(3 - Len(a)) |-> <<0, 0, 0>>]
Ops0 == Pick(OpsU \cup OpsB \cup OpsM \cup OpsS)
Rounds == {Int0(0, <<2>>), Int0(0, Zero0), Int0(0, <<7>>), Int0(1, <<1>>)}
Flags0 == {0, 37}
Inits == {<<m, fl, e, b>> : m \in (IF Wide THEN Modes ELSE {NEAR, DOWN}), fl \in Flags0, e \in {0, 34}, b \in (IF Only \cap ToOps # {} THEN {0, 1, 2} ELSE {0})}
None == Event(-1, "", 0, <<>>, <<0, 0, 0, 0>>, <<0, 0, 0, 0>>, <<>>)
VARIABLE n
vars == <<env, last, n>>
Init == /\ env \in (IF Threads = 1 THEN [{0} -> Inits] ELSE {[t \in 0..(Threads - 1) |-> <<0, 0, 0, 0>>]})
        /\ last = None /\ n = 0
\* with several threads, a handful of calls, taken in any order by any thread
Some == {<<"div", <<Enc(Fin(0, <<1>>, 0)), Enc(Fin(1, Zero0, 0))>>>>, <<"add", <<Enc(Fin(0, <<1>>, 0)), Enc(Fin(0, <<1>>, -9))>>>>,
         <<"rint", <<Enc(Fin(1, <<25>>, -1))>>>>, <<"strtod", <<<<49, 101, 57, 57, 57, 57>>>>>>, <<"lrint", <<Enc(Inf(0))>>>>}
Next == /\ n < Steps /\ n' = n + 1
        /\ \E t \in DOMAIN env :
             \/ Threads = 1 /\ \E f \in Ops0 : \E a \in Args(f) : Call(t, f, Width, Full(a))
             \/ Threads > 1 /\ \E c \in Some : Call(t, c[1], Width, Full(c[2]))
             \/ \E v \in Rounds : SetRound(t, v)
             \/ GetRound(t)
Spec == Init /\ [][Next]_vars
StepOk == [][StepProps]_vars
---------------------------------------------------------------------------
All == {"value", "ulp", "quantum", "must", "spur", "errno"}
IsRound == last.f \in {"setround", "getround"}
\* one thing changed
WithQ(i, v) == [last EXCEPT !.q[i] = v]
With(v) == [last EXCEPT !.r[1] = v]
Without(x) == last.q[2] - FlagBit(x)
\* another datum in place of the first result
Other(v) ==
  LET d == Dc(v) IN
  CASE IsNaN(d) -> {Inf(0), Fin(0, <<1>>, 0)}
    [] IsInf(d) -> {Inf(1 - d.s), QNaN, MaxFin(FF, d.s)}
    [] IsZero(d) -> {Neg(d), Fin(d.s, <<1>>, d.e), QNaN}
    [] OTHER -> {Neg(d), [d EXCEPT !.c = NAdd(d.c, One)], [d EXCEPT !.e = d.e + 1], Inf(d.s), QNaN, Fin(d.s, Zero0, 0)}
RejectsState(J(_)) ==
    /\ \A d \in Modes \ {last.q[1]} : "round" \in J(WithQ(1, d))
    /\ "brm" \in J(WithQ(4, last.q[4] + 1))
    /\ (last.p[3] # 0 /\ ~IsRound => "errno0" \in J(WithQ(3, 0)))
    /\ "errno" \in J(WithQ(3, 12))
    /\ J([last EXCEPT !.c = 1]) = {"crash"}
    /\ (~IsRound /\ last.f \in BidOps => "canon" \in J([last EXCEPT !.k = 0]))
    /\ \A x \in FlagSet(last.p[2]) : (~IsRound => "sticky" \in J(WithQ(2, Without(x))))
    /\ (IsRound => \A x \in AllFlags \ FlagSet(last.q[2]) : "spur" \in J(WithQ(2, last.q[2] + FlagBit(x))))
RejectsFlags(o, J(_)) ==
    /\ \A x \in o.must \ FlagSet(last.p[2]) : "must" \in J(WithQ(2, Without(x)))
    /\ \A x \in AllFlags \ (FlagSet(last.q[2]) \cup o.may) : "spur" \in J(WithQ(2, last.q[2] + FlagBit(x)))
RejectsErrno(o, J(_)) ==
  last.p[3] = 0 =>
    /\ ("dom" \notin o.en => "errno" \in J(WithQ(3, 33)))
    /\ ("range" \notin o.en => "errno" \in J(WithQ(3, 34)))
    /\ ("no" \notin o.en => "errno" \in J(WithQ(3, 0)))
RejectsResult(o, J(_)) ==
  o.r # <<>> =>
    LET x == o.r[1] IN
    CASE x.t = "d" -> /\ \A d \in Other(last.r[1]) : "value" \in J(With(Enc(d)))
                      /\ (x.q /\ IsFin(x.d) => LET d == x.d IN "quantum" \in J(With(Enc([d EXCEPT !.c = NShl(d.c, 1), !.e = d.e - 1]))))
      [] x.t = "b" -> \A d \in Other(last.r[1]) : "value" \in J(With(Enc(d)))
      [] x.t = "i" -> \A k \in {-1, 0, 1, 2, 3, 4, 5} \ {x.n} : "value" \in J(With(k))
      [] x.t = "n" -> \A v \in {Int0(1 - x.v.s, x.v.n), Int0(x.v.s, NAdd(x.v.n, One))} \ {x.v} : "value" \in J(With(EncInt(v)))
      [] x.t = "s" -> \A i \in 1..Len(x.s) : "value" \in J(With([x.s EXCEPT ![i] = @ + 1]))
      [] x.t = "r" -> LET d == Dc(last.r[1]) IN
             /\ (~IsInf(d) /\ ~IsZero(d) => "value" \in J(With(Enc(Neg(d)))) /\ J(With(Enc([d EXCEPT !.e = d.e + 1]))) # {})
             /\ "value" \in J(With(Enc(QNaN)))
      [] OTHER -> TRUE
\* the judge accepts exactly the step taken
Sharp ==
  last.t >= 0 =>
    LET o == Outcome(last.f, last.w, Direction(last.f, last.p), last.a)
        J(ev) == FailedBy(o, ev, ev.p, All)
    IN J(last) = {} /\ RejectsState(J) /\ (IsRound \/ (RejectsFlags(o, J) /\ RejectsErrno(o, J) /\ RejectsResult(o, J)))
=============================================================================
