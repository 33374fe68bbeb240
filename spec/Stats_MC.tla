----------------------------- MODULE Stats_MC -----------------------------
(***************************************************************************)
(* Small cubes of two bands, with a mask.  A step puts another value into  *)
(* a masked pixel: no statistic moves.  Known identities of the statistics *)
(* hold: deviations sum to nothing, the covariance is symmetric and        *)
(* nonnegative, RX adds up to (n - 1) times the bands over the pixels it   *)
(* was computed from, ACE lies in [0, 1] and is one at the target, the     *)
(* spectral angle ignores scaling.                                         *)
(***************************************************************************)
EXTENDS Stats, TLC, Json
CONSTANTS Vals, N
VARIABLES P, keep, moved, first
vars == <<P, keep, moved, first>>
Px2 == Vals \X Vals
Stat(p, k) == LET q == KeptPx(p, k) IN [m |-> Mean(q), c |-> Cov(q)]
Init == /\ P \in [1..N -> Px2]
        /\ keep \in {k \in [1..N -> BOOLEAN] : \E i, j \in 1..N : i # j /\ k[i] /\ k[j]}
        /\ moved = 0
        /\ first = Stat(P, keep)
Next == /\ moved < 2
        /\ \E i \in 1..N : ~ keep[i] /\ P' = [P EXCEPT ![i] = <<99, -7>>] /\ P' # P
        /\ moved' = moved + 1
        /\ UNCHANGED <<keep, first>>
Spec == Init /\ [][Next]_vars
Q == KeptPx(P, keep)
MaskedDoNotCount == LET z == Stat(P, keep) IN SameSeq(z.m, first.m) /\ EqMat(z.c, first.c)
CentredDeviations == \A b \in 1..2 : REq(RSum([i \in 1..Len(Q) |-> RSub(Q[i][b], first.m[b])]), 0)
SymmetricNonnegative == REq(first.c[1][2], first.c[2][1]) /\ RLe(0, Det(first.c)) /\ RLe(0, first.c[1][1])
Regular == ~ REq(Det(first.c), 0)
RxAddsUp == Regular => REq(RSum([i \in 1..Len(Q) |-> Rx(Q[i], first.m, Inverse(first.c))]), 2 * (Len(Q) - 1))
RxNonnegative == Regular => \A i \in 1..N : RLe(0, Rx(P[i], first.m, Inverse(first.c)))
AceBounds == (Regular /\ ~ SameSeq(P[1], first.m)) =>
   \A i \in 1..N : ~ SameSeq(P[i], first.m) =>
      LET a == Ace(P[i], P[1], first.m, Inverse(first.c))
      IN RLe(0, a) /\ RLe(a, 1) /\ (SameSeq(P[i], P[1]) => REq(a, 1))
NonZero(x) == ~ REq(RDot(x, x), 0)
SamScale == \A i \in 1..N : (NonZero(P[i]) /\ NonZero(P[1])) => RClose(Sam(P[i], P[1]), Sam(VScale(3, P[i]), P[1]), "1/1000000000000")
InverseInverts == Regular => EqMat(MMul(first.c, Inverse(first.c)), Ident(2))
Emit == moved = 0 => PrintT("@@BEH " \o ToJson([p |-> P, keep |-> keep]))
===========================================================================
