---------------------------- MODULE Colormap_MC ----------------------------
(* Small palettes, limits, bins and values. *)
EXTENDS Colormap, FiniteSets, TLC, Json
CONSTANTS Top, MaxLen, MaxBins
VARIABLES P, m, smooth, lo, hi
vars == <<P, m, smooth, lo, hi>>
Grey(k) == <<RDiv(k, 4), RDiv(4 - k, 4), RDiv(1, 2)>>
Init == /\ P = <<>> /\ m = 0 /\ smooth = TRUE /\ lo = 0 /\ hi = 0
Next == \/ hi = 0 /\ Len(P) < MaxLen /\ \E k \in {0, 1, 4} : P' = Append(P, Grey(k)) /\ UNCHANGED <<m, smooth, lo, hi>>
        \/ hi = 0 /\ Len(P) >= 2 /\ \E b \in {0} \cup 2..MaxBins, s \in BOOLEAN, l \in 0..1, h \in 2..Top : m' = b /\ smooth' = s /\ lo' = l /\ hi' = h /\ UNCHANGED P
Spec == Init /\ [][Next]_vars
Ready == hi > 0
Q == IF m = 0 THEN P ELSE Bins(P, m)
C(v) == Colours(P, m, smooth, lo, hi, v)
Has(cs, c) == \E i \in 1..Len(cs) : SameSeq(cs[i], c)
EndColours == Ready => \A v \in -1..(Top + 1) : /\ (v < lo => Len(C(v)) = 1 /\ Has(C(v), P[1]))
                                                /\ (v > hi => Len(C(v)) = 1 /\ Has(C(v), P[Len(P)]))
LimitsAreEnds == Ready => Has(C(lo), P[1]) /\ Has(C(hi), P[Len(P)])
SameCountSamePalette == Ready => \A i \in 1..Len(P) : SameSeq(Bins(P, Len(P))[i], P[i])
OneColourInside == Ready => \A v \in 0..Top : Len(C(v)) \in 1..2
StepsAreOfThePalette == (Ready /\ ~ smooth) => \A v \in 0..Top : \A i \in 1..Len(C(v)) : Has(Q, C(v)[i])
EqualSteps == (Ready /\ ~ smooth) => \A i \in 1..Len(Q) : LET v == RAdd(lo, RMul(RSub(hi, lo), RDiv(2 * i - 1, 2 * Len(Q)))) IN Len(C(v)) = 1 /\ SameSeq(C(v)[1], Q[i])
MidBetween == (Ready /\ smooth) => LET n == Len(Q) IN \A i \in 1..(n - 1) :
   LET v == RAdd(lo, RMul(RSub(hi, lo), RDiv(2 * i - 1, 2 * (n - 1)))) IN SameSeq(C(v)[1], Mix(Q[i], Q[i + 1], "1/2"))
NormalEnds == \A a \in -1..1, b \in 1..2 : REq(Normal(0, 0, Top, a, b), a) /\ REq(Normal(Top, 0, Top, a, b), b)
BlendEnds == REq(Blend(3, 7, 1), 3) /\ REq(Blend(3, 7, 0), 7) /\ REq(Blend(3, 7, "1/2"), 5)
Emit == Ready => PrintT("@@BEH " \o ToJson([P |-> P, m |-> m, smooth |-> smooth, lo |-> lo, hi |-> hi]))
============================================================================
