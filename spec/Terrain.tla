------------------------------ MODULE Terrain ------------------------------
(***************************************************************************)
(* Terrain heights over world positions, and lines of sight over them.     *)
(*   const   one height                                                    *)
(*   mm      the maximum of minima of planes h = a + b x + c y             *)
(*   raster  an elevation raster under an affine georeference              *)
(***************************************************************************)
EXTENDS Dem, Camera

Height(t, x, y) ==
  CASE t.k = "const" -> t.z
    [] t.k = "mm" -> RMaxOf([i \in 1..Len(t.m) |-> RMinOf([j \in 1..Len(t.m[i]) |-> RDot(t.m[i][j], <<1, x, y>>)])])
    [] t.k = "raster" -> LET p == GeoPx(t.g, <<x, y>>) IN IF t.method = "nearest" THEN Nearest(t.d, p) ELSE Bilinear(t.d, p)

\* a point on the segment from a to b (world triples) at fraction u
Along(a, b, u) == <<RAdd(a[1], RMul(u, RSub(b[1], a[1]))), RAdd(a[2], RMul(u, RSub(b[2], a[2]))), RAdd(a[3], RMul(u, RSub(b[3], a[3])))>>
\* terrain height above (positive) or below (negative) a point
Over(t, p) == RSub(Height(t, p[1], p[2]), p[3])
Horizontal(a, b) == RSqrt(RAdd(RSq(RSub(b[1], a[1])), RSq(RSub(b[2], a[2]))))

\* the segment in n parts: is the terrain over it, by more than tol, at run consecutive inner parts (from part k on,
\* with the streak parts before k)?
RECURSIVE Scan(_, _, _, _, _, _, _, _)
Scan(t, a, b, n, tol, run, k, streak) ==
  IF streak >= run THEN TRUE
  ELSE IF k >= n \/ streak + n - k < run THEN FALSE
  ELSE Scan(t, a, b, n, tol, run, k + 1, IF RLt(tol, Over(t, Along(a, b, RDiv(k, n)))) THEN streak + 1 ELSE 0)
LongRun(t, a, b, n, tol, run) == Scan(t, a, b, n, tol, run, 1, 0)
\* is the terrain over any inner part from fraction u on?
Above(t, a, b, n, tol, u) == \E k \in 1..(n - 1) : RLe(u, RDiv(k, n)) /\ RLt(tol, Over(t, Along(a, b, RDiv(k, n))))
===========================================================================
