------------------------------ MODULE MCBigNat ------------------------------
(* The accelerated big naturals (java/BigNat.java) against the definitions of BigNatPure: every pair of numbers
   from a set chosen around limb boundaries, carries and runs of zeros and nines. *)
EXTENDS Integers, Sequences, FiniteSets, BigNat, TLC
P == INSTANCE BigNatPure
Nine(n) == [i \in 1..n |-> 9999]
Zeros(n) == [i \in 1..n |-> 0]
Nums == {<<>>, <<1>>, <<2>>, <<5>>, <<9>>, <<10>>, <<99>>, <<1000>>, <<5000>>, <<9999>>, <<0, 1>>, <<1, 1>>, <<9999, 9>>, <<0, 0, 1>>, <<5000, 9999>>}
        \cup {Nine(n) : n \in {2, 3, 5, 9}} \cup {Zeros(n) \o <<1>> : n \in {3, 4, 8}} \cup {Zeros(n) \o <<5000>> : n \in {1, 3, 8}}
        \cup {<<1>> \o Zeros(n) \o <<1>> : n \in {1, 3, 7}} \cup {<<9999>> \o Zeros(3) \o <<9>>, <<1234, 5678, 9012, 3456, 789>>, <<4321, 0, 0, 8765, 100>>,
          <<616, 955, 7370, 4407, 6744, 1844>>, <<7295, 4, 2949>>, <<8, 5807, 7547, 3685, 2233, 9>>}
Shifts == {0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 33, 34, 35}
VARIABLES a, b, go       \* the second number is chosen in a step, so that workers share the work
Init == a \in Nums /\ b = <<>> /\ go = FALSE
Next == ~go /\ b' \in Nums /\ go' = TRUE /\ UNCHANGED a
Spec == Init /\ [][Next]_<<a, b, go>>
Pairs == go =>
  /\ NCmp(a, b) = P!PCmp(a, b)
  /\ NAdd(a, b) = P!PAdd(a, b)
  /\ NMul(a, b) = P!PMul(a, b)
  /\ (NCmp(a, b) >= 0 => NSub(a, b) = P!PSub(a, b))
  /\ (b # <<>> => NDivMod(a, b) = P!PDivMod(a, b))
\* the definitions themselves: divisions multiply back, roots square back, digits are the digits
Laws == go =>
  /\ (b # <<>> => LET d == NDivMod(a, b) IN NAdd(NMul(d[1], b), d[2]) = a /\ NCmp(d[2], b) < 0)
  /\ LET r == NSqrt(a) IN NCmp(NMul(r, r), a) <= 0 /\ NCmp(NMul(NAdd(r, <<1>>), NAdd(r, <<1>>)), a) > 0
  /\ NSub(NAdd(a, b), b) = a
Singles == ~go =>
  /\ NDigits(a) = P!PDigits(a) /\ NDigitSeq(a) = P!PDigitSeq(a) /\ NFromDigits(NDigitSeq(a)) = a
  /\ NSqrt(a) = P!PSqrt(a)
  /\ (a # <<>> => NTz(a) = P!PTz(a))
  /\ NOdd(a) = (a # <<>> /\ a[1] % 2 = 1)
  /\ \A k \in Shifts : NShl(a, k) = P!PShl(a, k) /\ NShr(a, k) = P!PShr(a, k)
  /\ \A n \in {0, 1, 9, 9999, 10000, 12345678} : NFromInt(n) = P!PFromInt(n) /\ NToInt(NFromInt(n)) = n
=============================================================================
