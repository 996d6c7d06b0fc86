------------------------------- MODULE BigNat -------------------------------
(* Interface to the big naturals.  java/BigNat.java overrides these operators when it is on TLC's
   class path; the definitions are those of BigNatPure. *)
EXTENDS Integers, Sequences
LOCAL INSTANCE BigNatPure
NFromInt(n)    == PFromInt(n)
NToInt(a)      == PToInt(a)
NCmp(a, b)     == PCmp(a, b)
NAdd(a, b)     == PAdd(a, b)
NSub(a, b)     == PSub(a, b)
NMul(a, b)     == PMul(a, b)
NShl(a, k)     == PShl(a, k)
NShr(a, k)     == PShr(a, k)
NDivMod(a, b)  == PDivMod(a, b)
NSqrt(a)       == PSqrt(a)
NDigits(a)     == PDigits(a)
NTz(a)         == PTz(a)
NDigitSeq(a)   == PDigitSeq(a)
NFromDigits(s) == PFromDigits(s)
NOdd(a)        == a # <<>> /\ a[1] % 2 = 1
=============================================================================
