------------------------------ MODULE Igm_MC ------------------------------
(***************************************************************************)
(* Weighting over the six nearest of a 3 x 3 grid.  The position is a      *)
(* stored one: its pixel gets weight 1/Tiny, the five next their inverse   *)
(* squared distances (bounded by one over the square of the spacing): the  *)
(* weighted pixel is within the stated fraction of the stored pixel.       *)
(***************************************************************************)
EXTENDS Igm, TLC
CONSTANTS Tiny
VARIABLE at
Init == at \in (0..2) \X (0..2)
Next == UNCHANGED at
Spec == Init /\ [][Next]_at
RECURSIVE Listed(_)
Listed(S) == IF S = {} THEN <<>> ELSE LET q == CHOOSE q \in S : TRUE IN <<q>> \o Listed(S \ {q})
Others == Listed({q \in (0..2) \X (0..2) : q # at})
Dist2(q) == (q[1] - at[1]) * (q[1] - at[1]) + (q[2] - at[2]) * (q[2] - at[2])
W == <<RDiv(1, Tiny)>> \o [k \in 1..8 |-> RDiv(1, Dist2(Others[k]))]
Xs == <<at[1]>> \o [k \in 1..8 |-> Others[k][1]]
Ys == <<at[2]>> \o [k \in 1..8 |-> Others[k][2]]
StoredPixelWins == RClose(Weighted(W, Xs), at[1], "1/10000") /\ RClose(Weighted(W, Ys), at[2], "1/10000")
InsideTheGrid == RLe(0, Weighted(W, Xs)) /\ RLe(Weighted(W, Xs), 2)
===========================================================================
