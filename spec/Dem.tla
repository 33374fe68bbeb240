-------------------------------- MODULE Dem --------------------------------
(***************************************************************************)
(* Elevation models.  A raster is [nx, ny, v]: v holds the heights in row  *)
(* order, "nan" for missing cells.  Pixel coordinates: cell (i, j) covers  *)
(* [i, i+1) x [j, j+1); its sample is taken at (i, j).                     *)
(***************************************************************************)
EXTENDS Lin, Shape

\* missing cells are marked
Remove(d, nodata) == [d EXCEPT !.v = [k \in 1..Len(d.v) |-> IF RFin(nodata) /\ REq(d.v[k], nodata) THEN "nan" ELSE d.v[k]]]

InI(n, i) == IF RLt(i, 0) THEN 0 ELSE IF RLt(n - 1, i) THEN n - 1 ELSE i
MarkTold(d, told) == IF told = <<>> THEN d ELSE Remove(d, told[1])
\* heights above the geoid from heights above the ellipsoid, and back; und[k]: the geoid's height at cell k
Shifted(d, und, dir) == [d EXCEPT !.v = [k \in 1..Len(d.v) |-> IF RFin(d.v[k]) THEN (IF dir = "geoid" THEN RSub(d.v[k], und[k]) ELSE RAdd(d.v[k], und[k])) ELSE d.v[k]]]
Cell(d, i, j) == d.v[At2(d.nx, InI(d.ny, j), InI(d.nx, i))]

\* inside the raster
InRaster(d, p) == RLe(0, p[1]) /\ RLe(p[1], d.nx) /\ RLe(0, p[2]) /\ RLe(p[2], d.ny)

Nearest(d, p) == Cell(d, RFloor(p[1]), RFloor(p[2]))
\* the four surrounding samples with their weights; beyond the last sample the edge sample applies
Corners(d, p) ==
  LET x == RClip(p[1], 0, d.nx - 1)
      y == RClip(p[2], 0, d.ny - 1)
      i == RFloor(x)  j == RFloor(y)
      a == RSub(x, i) b == RSub(y, j)
  IN << [h |-> Cell(d, i, j),         w |-> RMul(RSub(1, a), RSub(1, b))],
        [h |-> Cell(d, i + 1, j),     w |-> RMul(a, RSub(1, b))],
        [h |-> Cell(d, i, j + 1),     w |-> RMul(RSub(1, a), b)],
        [h |-> Cell(d, i + 1, j + 1), w |-> RMul(a, b)] >>
Used(cs, eps) == {k \in 1..4 : RLt(eps, cs[k].w)}
Missing(h) == ~ RFin(h)
Bilinear(d, p) ==
  LET cs == Corners(d, p)
  IN IF \E k \in Used(cs, 0) : Missing(cs[k].h) THEN "nan"
     ELSE RSum([k \in 1..4 |-> IF RLt(0, cs[k].w) THEN RMul(cs[k].w, cs[k].h) ELSE 0])

\* the points a point known to within eps may be
Around(p, eps) == LET o == <<0, eps, RNeg(eps)>> IN [k \in 1..9 |-> <<RAdd(p[1], o[((k - 1) % 3) + 1]), RAdd(p[2], o[((k - 1) \div 3) + 1])>>]
\* an observed height h at a point known to within eps, when heights of the raster span no more than s
IsNearest(d, p, h, eps) == \E k \in 1..9 : SameNum(Nearest(d, Around(p, eps)[k]), h)
IsBilinear(d, p, h, eps, s) ==
  LET cs == Corners(d, p)
  IN IF Missing(h)
     THEN \E k \in 1..9 : Missing(Bilinear(d, Around(p, eps)[k]))
     ELSE /\ \A k \in Used(cs, RMul(2, eps)) : ~ Missing(cs[k].h)
          /\ RClose(h, RSum([k \in 1..4 |-> IF Missing(cs[k].h) THEN 0 ELSE RMul(cs[k].w, cs[k].h)]), RMul(RMax("1/1000000", RMul(4, eps)), RAdd(1, s)))

Finite(d) == SelectSeq(d.v, LAMBDA z : RFin(z))
Highest(d) == RMaxOf(Finite(d))
Lowest(d)  == RMinOf(Finite(d))
Mean(d)    == LET s == Finite(d) IN RDiv(RSum(s), Len(s))
===========================================================================
