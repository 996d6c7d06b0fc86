------------------------------ MODULE Machine ------------------------------
(* libdfp as a transition system.  env[t] is <<direction, flags, errno, binary direction>> of thread t; last is the
   call just made, as the recorder writes it.  Libdfp gives what a call may do (Outcome); Failed, the judge of
   recorded calls, has to accept exactly these steps (MCMachine). *)
EXTENDS Libdfp, TLC
VARIABLES env, last
mvars == <<env, last>>
Enc(d) == <<d.k, d.s, d.e>> \o d.c
EncInt(v) == <<v.s>> \o v.n
FlagBit(x) == CASE x = "I" -> 1 [] x = "Z" -> 4 [] x = "O" -> 8 [] x = "U" -> 16 [] OTHER -> 32
RECURSIVE FlagNum(_)
FlagNum(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN FlagBit(x) + FlagNum(S \ {x})
ErrnoNum(x, pre) == CASE x = "dom" -> 33 [] x = "range" -> 34 [] OTHER -> pre
\* a real rounded to the format
RealDatum(F, m, r) == IF RIs0(r) THEN Fin(r.s, Zero0, 0) ELSE IF RAdj(r) > 20000 THEN OverflowResult(F, m, r.s) ELSE Round(F, m, r.s, r.c, r.e, IF NDigits(r.c) > F.p THEN 1 ELSE 0, r.e).d
\* encodings of what an expected result allows
Reps(F, m, x) ==
  CASE x.t \in {"d", "b"} -> {Enc(x.d)} [] x.t = "o" -> {Enc(d) : d \in x.S} [] x.t = "v" -> {Enc(d) : d \in x.S}
    [] x.t = "i" -> {x.n} [] x.t = "n" -> {EncInt(x.v)} [] x.t = "s" -> {x.s}
    [] x.t = "r" -> {Enc(RealDatum(F, m, x.r))} [] OTHER -> {<<0, 0, 0>>}
RECURSIVE Choices(_, _, _)
Choices(F, m, xs) == IF xs = <<>> THEN {<<>>} ELSE {<<v>> \o rest : v \in Reps(F, m, Head(xs)), rest \in Choices(F, m, Tail(xs))}
Event(t, f, w, a, p, q, r) == [t |-> t, f |-> f, w |-> w, a |-> a, p |-> p, q |-> q, r |-> r, c |-> 0, k |-> 1, i |-> 0, u |-> 0]

\* the steps: a call of f at width w on arguments a by thread t
Posts(f, w, a, p) ==
  LET o == Outcome(f, w, Direction(f, p), a)  pf == FlagSet(p[2]) IN
  {<<r, <<p[1], FlagNum(pf \cup o.must \cup x), ErrnoNum(e, p[3]), p[4]>>>> :
     r \in Choices(Fmt(w), p[1], o.r), x \in (IF Cardinality(o.may) > 2 THEN {{}, o.may} ELSE SUBSET o.may), e \in o.en}
Call(t, f, w, a) ==
  \E post \in Posts(f, w, a, env[t]) :
    /\ env' = [env EXCEPT ![t] = post[2]]
    /\ last' = Event(t, f, w, a, env[t], post[2], post[1])
SetRound(t, v) ==
  LET r == RoundCall("setround", env[t][1], <<EncInt(v)>>)
      q == <<r.rnd, env[t][2], env[t][3], env[t][4]>> IN
  /\ env' = [env EXCEPT ![t] = q]
  /\ last' = Event(t, "setround", 0, <<EncInt(v)>>, env[t], q, <<IF r.ok THEN 0 ELSE 1>>)
GetRound(t) ==
  /\ UNCHANGED env
  /\ last' = Event(t, "getround", 0, <<>>, env[t], env[t], <<env[t][1]>>)

\* what the properties say of every step (C03 sticky flags, C09 and C21 whose environment changes, C22 errno)
Sticky == \A t \in DOMAIN env : FlagSet(env[t][2]) \subseteq FlagSet(env'[t][2])
OwnThread == \A t \in DOMAIN env : env'[t] # env[t] => last'.t = t
DirectionBySetround == \A t \in DOMAIN env : env'[t][1] # env[t][1] => last'.f = "setround"
BinaryDirectionKept == \A t \in DOMAIN env : env'[t][4] = env[t][4]
ErrnoNotCleared == \A t \in DOMAIN env : env[t][3] # 0 => env'[t][3] # 0
StepProps == Sticky /\ OwnThread /\ DirectionBySetround /\ BinaryDirectionKept /\ ErrnoNotCleared
=============================================================================
