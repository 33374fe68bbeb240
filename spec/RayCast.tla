------------------------------ MODULE RayCast ------------------------------
(***************************************************************************)
(* First intersection of a ray with terrain, by sampling: the ray runs     *)
(* from a (above all terrain) to b (below all terrain) in n equal steps;   *)
(* the first sample under the terrain and the one before it are joined     *)
(* linearly.                                                               *)
(***************************************************************************)
EXTENDS Terrain
Sample(a, b, n, k) == Along(a, b, RDiv(k, n))
\* the crossing between samples k - 1 and k
Crossing(t, a, b, n, k) ==
  LET p == Sample(a, b, n, k - 1)
      q == Sample(a, b, n, k)
      u == Over(t, p)            \* <= 0
      v == Over(t, q)            \* >  0
      f == RDiv(u, RSub(u, v))
      x == Along(p, q, f)
  IN <<x[1], x[2], RAdd(Height(t, p[1], p[2]), RMul(f, RSub(Height(t, q[1], q[2]), Height(t, p[1], p[2]))))>>
===========================================================================
