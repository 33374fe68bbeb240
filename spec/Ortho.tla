------------------------------- MODULE Ortho -------------------------------
(***************************************************************************)
(* Orthorectification.  A grid of nx by ny cells spans a ground rectangle  *)
(* box = <<minx, miny, maxx, maxy>> under the georeference GridGeo.  The   *)
(* cell in column i, row j looks at the ground point under its centre, at  *)
(* the terrain's height there, and takes the source sample (order 0) or    *)
(* the interpolation between the four samples (order 1) at the pixel which *)
(* images that point.  The sample of pixel (x, y) is taken at (x, y).      *)
(*                                                                         *)
(* A source band is [nx, ny, v] as an elevation raster is (Dem.tla).       *)
(***************************************************************************)
EXTENDS Terrain

GridGeo(box, nx, ny) == << box[1], RDiv(RSub(box[3], box[1]), nx), 0, box[4], 0, RNeg(RDiv(RSub(box[4], box[2]), ny)) >>
CellCentre(g, i, j) == GeoWorld(g, << RAdd(i, "1/2"), RAdd(j, "1/2") >>)
\* the centres in row order
Centres(g, nx, ny) == [k \in 1..(nx * ny) |-> CellCentre(g, ColOf(nx, k), RowOf(nx, k))]
\* corner k of the grid
GridCorners(g, nx, ny) == << GeoWorld(g, <<0, 0>>), GeoWorld(g, <<nx, 0>>), GeoWorld(g, <<nx, ny>>), GeoWorld(g, <<0, ny>>) >>

\* ---- where a pixel position lies in an nx by ny image, by eps
Within(nx, ny, p, lo, hix, hiy) == RLe(lo, p[1]) /\ RLe(p[1], hix) /\ RLe(lo, p[2]) /\ RLe(p[2], hiy)
\* certainly outside: no sample is within half a pixel
Outside(b, p, eps) == LET h == RAdd("1/2", eps)
                      IN ~ Within(b.nx, b.ny, p, RNeg(h), RAdd(b.nx - 1, h), RAdd(b.ny - 1, h))
\* certainly inside: not within one pixel of the edge of the image
Inside(b, p, eps) == Within(b.nx, b.ny, p, eps, RSub(b.nx - 2, eps), RSub(b.ny - 2, eps))

\* ---- the source at a pixel position
NearestSample(b, p) == Cell(b, RFloor(RAdd(p[1], "1/2")), RFloor(RAdd(p[2], "1/2")))
IsSample(b, order, p, v, eps, tol) ==
  IF order = 0 THEN \E k \in 1..9 : SameNum(NearestSample(b, Around(p, eps)[k]), v)
  ELSE RClose(v, Bilinear(b, p), tol)

\* an output value v of a cell looking at position p: the source's value there, nodata outside, either at the edge
CellOk(b, order, p, v, nodata, eps, tol) ==
  IF ~ RFin(p[1]) \/ ~ RFin(p[2]) THEN TRUE
  ELSE IF Outside(b, p, eps) THEN SameNum(v, nodata)
  ELSE IF Inside(b, p, eps) THEN IsSample(b, order, p, v, eps, tol)
  ELSE SameNum(v, nodata) \/ IsSample(b, order, p, v, eps, tol)

\* ---- opacity: what is not nodata in the first band
Alpha(v, nodata) == IF SameNum(v, nodata) THEN 0 ELSE 255

(***************************************************************************)
(* Outlines: convex polygons as sequences of vertices.                     *)
(***************************************************************************)
Side(a, b, p) == RSub(RMul(RSub(b[1], a[1]), RSub(p[2], a[2])), RMul(RSub(b[2], a[2]), RSub(p[1], a[1])))
Next2(poly, k) == poly[(k % Len(poly)) + 1]
\* p lies inside or on the outline, whichever way round it goes
InOutline(poly, p) ==
  \/ \A k \in 1..Len(poly) : RLe(0, Side(poly[k], Next2(poly, k), p))
  \/ \A k \in 1..Len(poly) : RLe(Side(poly[k], Next2(poly, k), p), 0)
\* turns one way at every vertex, and goes round only once: no other vertex lies behind the first edge
Convex(poly) ==
  LET n == Len(poly)
      V(k) == poly[((k - 1) % n) + 1]
      Turn(s) == \A k \in 1..n : RLe(0, RMul(s, Side(V(k), V(k + 1), V(k + 2))))
      Front(s) == \A k \in 1..n : RLe(0, RMul(s, Side(V(1), V(2), V(k))))
  IN (Turn(1) /\ Front(1)) \/ (Turn(-1) /\ Front(-1))
BoxOf(poly) == << RMinOf(Col(poly, 1)), RMinOf(Col(poly, 2)), RMaxOf(Col(poly, 1)), RMaxOf(Col(poly, 2)) >>
\* the frame of an image of nx by ny pixels, grown by eps
InFrame(nx, ny, q, eps) == Within(nx, ny, q, RNeg(eps), RAdd(nx - 1, eps), RAdd(ny - 1, eps))
OnFrame(nx, ny, q, eps) == InFrame(nx, ny, q, eps) /\ ~ Within(nx, ny, q, eps, RSub(nx - 1, eps), RSub(ny - 1, eps))
===========================================================================
