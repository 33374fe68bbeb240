------------------------------ MODULE Spline ------------------------------
(***************************************************************************)
(* Interpolation of order 2 to 5: the spline of that order through all     *)
(* samples.  A sample's share at distance d is Card(n, d), the cardinal    *)
(* spline: a sum of B-splines (BSpline) with the coefficients that make it *)
(* 1 at its own sample and 0 at every other.  A picture is bumps on a      *)
(* ground: [x0, y0, nx, ny, v, ground], the block of samples v at x0, y0   *)
(* and `ground' everywhere else; bumps fade out within a dozen samples, so *)
(* that it is of no matter how the picture is continued beyond its edge.   *)
(***************************************************************************)
EXTENDS Ortho

RECURSIVE BSpline(_, _)
\* by its recursion; the spline of order 0 is 1 on [-1/2, 1/2)
BSpline(n, x) ==
  LET h == RDiv(n + 1, 2)
  IN IF n = 0 THEN (IF RLe("-1/2", x) /\ RLt(x, "1/2") THEN 1 ELSE 0)
     ELSE IF RLe(x, RNeg(h)) \/ RLe(h, x) THEN 0
     ELSE RDiv(RAdd(RMul(RAdd(h, x), BSpline(n - 1, RAdd(x, "1/2"))), RMul(RSub(h, x), BSpline(n - 1, RSub(x, "1/2")))), n)

\* coefficients at distance 0, 1, 2, ... in hundred-millionths; Spline_MC checks that they interpolate
Hundred == 100000000
Coefs(n) ==
  CASE n = 2 -> <<141421356, -24264069, 4163056, -714267, 122549, -21026, 3608, -619, 106>>
    [] n = 3 -> <<173205081, -46410162, 12435565, -3332100, 892833, -239234, 64103, -17176, 4602, -1233, 330, -89>>
    [] n = 4 -> <<221273027, -82582560, 29876547, -10796123, 3901091, -1409625, 509356, -184051, 66505, -24031, 8683, -3138, 1134, -410, 148, -53>>
    [] n = 5 -> <<284217092, -132172947, 57332587, -24704193, 10637800, -4580408, 1972212, -849186, 365639, -157435, 67788, -29188, 12567, -5411, 2330, -1003, 432, -186, 80, -34>>
Coef(n, k) == LET a == IF k < 0 THEN -k ELSE k IN IF a < Len(Coefs(n)) THEN Coefs(n)[a + 1] ELSE 0
Card(n, d) ==
  IF n = 0 THEN BSpline(0, d) ELSE IF n = 1 THEN BSpline(1, d)
  ELSE LET b == RFloor(RAdd(d, "1/2"))
           s == [j \in 1..7 |-> LET c == Coef(n, b + j - 4) IN IF c = 0 THEN 0 ELSE RMul(c, BSpline(n, RSub(d, b + j - 4)))] \o <<>>
       IN RDiv(RSum(s), Hundred)

\* the picture at position p
Smooth(b, n, p) ==
  LET wx == [k \in 1..b.nx |-> RShort(Card(n, RSub(p[1], b.x0 + k - 1)))] \o <<>>
      wy == [k \in 1..b.ny |-> RShort(Card(n, RSub(p[2], b.y0 + k - 1)))] \o <<>>
      row(j) == RDot([k \in 1..b.nx |-> RSub(b.v[((j - 1) * b.nx) + k], b.ground)] \o <<>>, wx)
  IN RAdd(b.ground, RDot([j \in 1..b.ny |-> row(j)] \o <<>>, wy))
LowestOf(b) == RMin(b.ground, RMinOf(b.v))
HighestOf(b) == RMax(b.ground, RMaxOf(b.v))
\* splines swing beyond the samples; whether they may is left open
SmoothOk(b, n, p, v, tol) ==
  LET s == Smooth(b, n, p)
  IN RFin(v) /\ (RClose(v, s, tol) \/ RClose(v, RClip(s, LowestOf(b), HighestOf(b)), tol))
===========================================================================
