------------------------------ MODULE MCBinary ------------------------------
(* Conversion between radices, on small formats, against what the property says: a result is the representable number
   the rounding direction selects among the neighbours of the exact value.  Part "to": every decimal number into a
   binary format; part "from": every binary number into a decimal format. *)
EXTENDS Binary, TLC
CONSTANTS P, QLow, QMax, BP, ELow, EMax, Part
F == [p |-> P, qmin |-> -QLow, qmax |-> QMax, w |-> 0]
G == [p |-> BP, emin |-> -ELow, emax |-> EMax]
Decs == {Fin(s, NFromInt(c), e) : s \in {0, 1}, c \in 0..(10^P - 1), e \in (-QLow)..QMax}
Bins == {Fin(s, NFromInt(c), e) : s \in {0, 1}, c \in 0..(2^BP - 1), e \in (-ELow)..EMax}
VARIABLES x, m, go
Init == x \in (IF Part = "to" THEN Decs ELSE Bins) /\ m = NEAR /\ go = FALSE
Next == ~go /\ m' \in Modes /\ go' = TRUE /\ UNCHANGED x
Spec == Init /\ [][Next]_<<x, m, go>>
\* magnitudes over the common denominator 10^A * 2^B
A == QLow + 1
B == ELow + 1
Den == NMul(NShl(One, A), Two(B))
DecM(c, e) == NMul(NShl(c, e + A), Two(B))
BinM(c, e) == NMul(NMul(c, Two(e + B)), NShl(One, A))
\* all magnitudes of the target, with its range left open at the top: [v, odd, over]
BinMags == {[v |-> BinM(NFromInt(c), e), odd |-> c % 2 = 1, over |-> e > EMax] :
              c \in (2^(BP - 1))..(2^BP - 1), e \in (-ELow)..(EMax + 2)} \cup
           {[v |-> BinM(NFromInt(c), -ELow), odd |-> c % 2 = 1, over |-> FALSE] : c \in 0..(2^(BP - 1) - 1)}
DecMags == {[v |-> DecM(NFromInt(c), e), odd |-> c % 2 = 1, over |-> e > QMax] :
              c \in (10^(P - 1))..(10^P - 1), e \in (-QLow)..(QMax + 2)} \cup
           {[v |-> DecM(NFromInt(c), -QLow), odd |-> c % 2 = 1, over |-> FALSE] : c \in 0..(10^(P - 1) - 1)}
Mags == IF Part = "to" THEN BinMags ELSE DecMags
V == IF Part = "to" THEN DecM(x.c, x.e) ELSE BinM(x.c, x.e)
Dist(a, b) == IF NCmp(a, b) >= 0 THEN NSub(a, b) ELSE NSub(b, a)
Lo == CHOOSE g \in Mags : NCmp(g.v, V) <= 0 /\ \A h \in Mags : NCmp(h.v, V) <= 0 => NCmp(h.v, g.v) <= 0
Top == \A g \in Mags : NCmp(g.v, V) <= 0      \* beyond even the open range
Hi == CHOOSE g \in Mags : NCmp(g.v, V) > 0 /\ \A h \in Mags : NCmp(h.v, V) > 0 => NCmp(h.v, g.v) >= 0
Pick == IF Top \/ Lo.v = V THEN Lo
        ELSE LET k == NCmp(Dist(Hi.v, V), Dist(Lo.v, V)) IN
             CASE m = ZERO -> Lo
               [] m = UP -> IF x.s = 0 THEN Hi ELSE Lo
               [] m = DOWN -> IF x.s = 1 THEN Hi ELSE Lo
               [] m = AWAY -> IF k <= 0 THEN Hi ELSE Lo
               [] OTHER -> IF k < 0 THEN Hi ELSE IF k > 0 THEN Lo ELSE IF Lo.odd THEN Hi ELSE Lo
Res == IF Part = "to" THEN ToBin(G, m, x) ELSE FromBin(F, m, x)
Outward == m \in {NEAR, AWAY} \/ (m = UP /\ x.s = 0) \/ (m = DOWN /\ x.s = 1)
MaxC == IF Part = "to" THEN NSub(Two(BP), One) ELSE NFromInt(10^P - 1)
MaxE == IF Part = "to" THEN EMax ELSE QMax
Least == IF Part = "to" THEN BinM(Two(BP - 1), -ELow) ELSE DecM(NShl(One, P - 1), -QLow)
Right ==
  go => LET r == Res IN
        /\ r.d.s = x.s
        /\ IF Pick.over
           THEN r.fl = {"O", "X"} /\ (IF Outward THEN r.d = Inf(x.s) ELSE IsFin(r.d) /\ r.d.c = MaxC /\ r.d.e = MaxE)
           ELSE /\ IsFin(r.d)
                /\ (IF Part = "to" THEN BinM(r.d.c, r.d.e) ELSE DecM(r.d.c, r.d.e)) = Pick.v
                /\ ("X" \in r.fl) = (Pick.v # V)
                /\ ("U" \in r.fl) = (Pick.v # V /\ NCmp(V, Least) < 0)
                /\ r.fl \subseteq {"U", "X"}
\* there and back: enough digits keep every number
Wide == [p |-> 2 * BP + 8, qmin |-> -(ELow + 4), qmax |-> EMax + 6, w |-> 0]
Back == go /\ Part = "from" => LET d == FromBin(Wide, m, x) IN d.fl = {} /\ SameBin(ToBin(G, m, d.d).d, IF x.c = Zero0 THEN x ELSE ToBin(G, m, d.d).d) /\
          BinM(ToBin(G, m, d.d).d.c, IF x.c = Zero0 THEN 0 ELSE ToBin(G, m, d.d).d.e) = BinM(x.c, IF x.c = Zero0 THEN 0 ELSE x.e)
Bits == \A k \in 0..400 : BitLen(Two(k)) = k + 1 /\ (k > 0 => BitLen(NSub(Two(k), One)) = k)
ASSUME Bits
=============================================================================
