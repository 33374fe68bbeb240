----------------------------- MODULE Spline_MC -----------------------------
(* A position walks in eighths past a block of samples that change one by    *)
(* one: what an interpolation of any order has to satisfy.                   *)
EXTENDS Spline, TLC, Json
CONSTANTS Sizes, Vals, Far
VARIABLES n, t, v
vars == <<n, t, v>>
Init == n \in Sizes /\ t = 0 /\ v \in {<<a, b, c>> : a, b, c \in Vals}
Move == t < Far /\ t' = t + 1 /\ UNCHANGED <<n, v>>
Next == Move
Spec == Init /\ [][Next]_vars

X == RDiv(t, 8)
Tol == "1/100000"
B == [x0 |-> 0, y0 |-> 0, nx |-> 3, ny |-> 1, v |-> v, ground |-> 0]
At(x) == Smooth(B, n, <<x, 0>>)
ThroughTheSamples == (t % 8 = 0) => RClose(At(X), IF t \div 8 < 3 THEN v[(t \div 8) + 1] ELSE 0, Tol)
OwnSampleOnly == (t % 8 = 0) => RClose(Card(n, X), IF t = 0 THEN 1 ELSE 0, Tol)
EitherSide == RClose(Card(n, X), Card(n, RNeg(X)), Tol)
\* the shares of all samples come to one: flat pictures stay flat
SharesAreWhole == (t < 8) => RClose(RSum([k \in 1..61 |-> Card(n, RSub(RDiv(t % 8, 8), k - 31))] \o <<>>), 1, Tol)
\* planes stay planes
SlopesStay == (t < 8) => RClose(RSum([k \in 1..61 |-> RMul(k - 31, Card(n, RSub(RDiv(t % 8, 8), k - 31)))] \o <<>>), RDiv(t % 8, 8), RMul(30, Tol))
FadesOut == (t >= 8 * 20) => RClose(Card(n, X), 0, "1/50000")
NoJumps == RClose(Card(n, X), Card(n, RAdd(X, "1/10000")), "1/1000")
LinesTellRows == LET b == [x0 |-> 0, y0 |-> 0, nx |-> 1, ny |-> 3, v |-> v, ground |-> 0] IN REq(Smooth(b, n, <<0, X>>), RMul(Card(n, 0), RDiv(At(X), Card(n, 0))))
GroundIsAdded == REq(Smooth([B EXCEPT !.ground = 5, !.v = [k \in 1..3 |-> v[k] + 5]], n, <<X, 0>>), RAdd(5, At(X)))
\* orders differ between the samples
OrdersDiffer == (n < 5 /\ t = 4) => RLt("1/1000", RAbs(RSub(Card(n, X), Card(n + 1, X))))
Known == /\ REq(BSpline(2, 0), "3/4") /\ REq(BSpline(3, 0), "2/3") /\ REq(BSpline(3, 1), "1/6") /\ REq(BSpline(4, 0), "115/192") /\ REq(BSpline(5, 0), "11/20")
ASSUME Known
=============================================================================
