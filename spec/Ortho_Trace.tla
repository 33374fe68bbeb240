--------------------------- MODULE Ortho_Trace ----------------------------
(***************************************************************************)
(* Judges recorded orthorectifications, ground extents and ground grids.   *)
(* case.cams: the camera of every band, or one for all bands; case.t: the  *)
(* terrain; case.src: the source bands.  e.land: the positions in the      *)
(* terrain's own projection, when it is another one.                       *)
(*                                                                         *)
(* ortho:  e.v[b][k], the value of cell k in the b-th requested band       *)
(* extent: e.poly the outline, e.pts ground points to tell in from out     *)
(* full:   an orthorectification whose grid was chosen by the code         *)
(* ground: e.r ground points of pixels e.px                                *)
(***************************************************************************)
EXTENDS Ortho, Judge
TInit(case) == [cams |-> [k \in 1..Len(case.cams) |-> Prepare(case.cams[k])] \o <<>>, src |-> case.src]
Eps == "1/10000"
CamOf(st, b) == IF Len(st.cams) = 1 THEN st.cams[1] ELSE st.cams[b + 1]
Integral(dt) == dt \notin {"float32", "float64"}
\* within a pixel of the edge an interpolation may run into the nodata around the source
Blended(b, p, v, nodata, tol) ==
  LET lo == IF RLt(nodata, RMinOf(b.v)) THEN nodata ELSE RMinOf(b.v)
      hi == IF RLt(nodata, RMaxOf(b.v)) THEN RMaxOf(b.v) ELSE nodata
  IN /\ Within(b.nx, b.ny, p, RNeg(RAdd(1, Eps)), RAdd(b.nx, Eps), RAdd(b.ny, Eps))
     /\ ~ Within(b.nx, b.ny, p, Eps, RSub(b.nx - 1, Eps), RSub(b.ny - 1, Eps))
     /\ RFin(v) /\ RLe(RSub(lo, tol), v) /\ RLe(v, RAdd(hi, tol))
Span(b) == RSub(RMaxOf(b.v), RMinOf(b.v))
Tol(dt, order, b) == RAdd(IF Integral(dt) THEN 1 ELSE 0, RMul("1/1000", RAdd("1/100", Span(b))))

\* what a cell of the output grid shows: native = the cell centres in the cameras' coordinates
Cells(case, st, e, native) ==
  LET n == Len(native)
      L(k) == IF e.land = <<>> THEN native[k] ELSE e.land[k]
      P == [k \in 1..n |-> <<native[k][1], native[k][2], Height(case.t, L(k)[1], L(k)[2])>>] \o <<>>
      Q == [c \in 1..Len(st.cams) |-> [k \in 1..n |-> Px(st.cams[c], P[k])] \o <<>>] \o <<>>
      Bn == Len(e.bands)
  IN [every_band_in_order_and_every_cell |-> Len(e.v) = Bn + (IF e.mask THEN 1 ELSE 0) /\ \A b \in 1..Len(e.v) : Len(e.v[b]) = n,
      source_value_or_nodata |-> \A b \in 1..Bn : b <= Len(e.v) =>
         LET src == st.src[e.bands[b] + 1]
             tol == Tol(e.dt, e.order, src)
             c == IF Len(st.cams) = 1 THEN 1 ELSE e.bands[b] + 1
         IN \A k \in 1..Len(e.v[b]) : CellOk(src, e.order, Q[c][k], e.v[b][k], e.nodata, Eps, tol) \/ (e.blend /\ e.order = 1 /\ Blended(src, Q[c][k], e.v[b][k], e.nodata, tol)),
      opaque_where_not_nodata |-> e.mask => \A k \in 1..Len(e.v[Len(e.v)]) : SameNum(e.v[Len(e.v)][k], Alpha(e.v[1][k], e.nodata))]

Grid(case, e, box) ==
  [size_as_requested |-> e.osh = <<e.ny, e.nx, Len(e.bands) + (IF e.mask THEN 1 ELSE 0)>>,
   spans_the_rectangle |-> LET g == GridGeo(box, e.nx, e.ny)
                               px == RMax(RAbs(g[2]), RAbs(g[6]))
                           IN Len(e.geot) = 6 /\ \A c \in 1..4 : CloseSeq(GridCorners(e.geot, e.nx, e.ny)[c], GridCorners(g, e.nx, e.ny)[c], RMul("1/100000", px)),
   in_the_projection_asked_for |-> e.proj = e.wantproj,
   source_sample_type |-> e.odt = e.dt,
   nodata_recorded |-> SameNum(e.ond, e.nodata),
   source_untouched |-> e.kept]
WorldOk(e) == LET z == Centres(e.geot, e.nx, e.ny) \o <<>>
              IN Len(z) = Len(e.world) /\ \A k \in 1..Len(z) : NearSeq(e.world[k], z[k], "1/100000000000")

\* ---- outlines
CamSeen(case, st, e, b, p) == Px(st.cams[b], <<p[1], p[2], Height(case.t, p[1], p[2])>>)

TStep(case, st, e) ==
  [st |-> st,
   ck |->
    IF e.err # "" THEN [no_error |-> FALSE]
    ELSE
    CASE e.op = "ortho" ->
           Cells(case, st, e, IF e.same THEN Centres(e.geot, e.nx, e.ny) \o <<>> ELSE e.native)
             @@ Grid(case, e, e.box) @@ [cells_at_their_centres |-> e.same \/ WorldOk(e)]
      [] e.op = "again" ->        \* the same from other storage, or read back from a file
           [same_image |-> e.v = e.want, same_size |-> e.osh = e.wantsh, same_type |-> e.odt = e.wantdt,
            same_georeference |-> NearSeq(e.geot, e.wantgeot, "1/1000000000000"), same_nodata |-> SameNum(e.ond, e.wantnd)]
      [] e.op = "extent" ->
           LET NC == Len(st.cams)
               see(b, p) == CamSeen(case, st, e, b, p)
               In(b, p, eps) == InFrame(e.nx, e.ny, see(b, p), eps)
           IN [an_outline |-> Len(e.poly) >= 3 /\ Convex(e.poly),
               through_border_pixels |-> \A k \in 1..Len(e.poly) : \E b \in {e.of[j] : j \in 1..Len(e.of)} : OnFrame(e.nx, e.ny, see(b, e.poly[k]), e.eps),
               contains_what_is_imaged |-> \A k \in 1..Len(e.pts) : (\E b \in {e.of[j] : j \in 1..Len(e.of)} : In(b, e.pts[k], RNeg(e.eps))) => InOutline(e.poly, e.pts[k]),
               nothing_else |-> e.exact => \A k \in 1..Len(e.pts) : InOutline(e.poly, e.pts[k]) => In(1, e.pts[k], e.eps)]
      [] e.op = "full" ->
           LET g == e.geot
               box == e.box
               \* the lower left, lower right and upper left corner of the extent in metres
               L(k) == <<e.local[1][k], e.local[2][k]>>
               wx == Horizontal(L(1), L(2))  wy == Horizontal(L(1), L(3))
           IN Cells(case, st, e, IF e.same THEN Centres(g, e.nx, e.ny) \o <<>> ELSE e.native) @@ Grid(case, e, box)
              @@ [covers_the_extent |-> e.nx >= 1 /\ e.ny >= 1,
                  sample_distance_as_asked |->
                    \* a whole number of cells, none smaller than asked, and no room for one more
                    LET P(k) == <<e.corners[1][k], e.corners[2][k]>>       \* ground of the upper left, upper right and lower left pixel
                        gsd == IF e.auto THEN RDiv(RAdd(RDiv(Horizontal(P(1), P(2)), e.snx), RDiv(Horizontal(P(1), P(3)), e.sny)), 2) ELSE e.gsd
                        fx == RDiv(wx, gsd)  fy == RDiv(wy, gsd)
                    IN /\ RLe(e.nx, RAdd(fx, e.slack)) /\ RLt(RSub(fx, RAdd(1, e.slack)), e.nx)
                       /\ RLe(e.ny, RAdd(fy, e.slack)) /\ RLt(RSub(fy, RAdd(1, e.slack)), e.ny)]
      [] e.op = "ground" ->
           LET n == Len(e.px)
               P(k) == <<e.r[1][k], e.r[2][k]>>
               \* the terrain is looked up once, under the point seen at the highest altitude
               cam == st.cams[e.b]
               \* off by what the terrain changes on the way from the highest altitude to the ground
               tol == RAdd(e.eps, RDiv(RMul(RMul(e.slope, e.reach), RSq(e.tan)), e.gsd))
           IN [shape_of_input |-> e.osh = <<e.sh, e.sh>>,
               one_point_per_pixel |-> Len(e.r[1]) = n /\ Len(e.r[2]) = n,
               on_the_ground_at_its_pixel |-> \A k \in 1..n :
                  LET L == IF e.land = <<>> THEN P(k) ELSE e.land[k]
                      q == Px(cam, <<P(k)[1], P(k)[2], Height(case.t, L[1], L[2])>>)
                  IN RClose(q[1], e.px[k][1], tol) /\ RClose(q[2], e.px[k][2], tol)]
      [] e.op = "grid" ->
           LET z == Centres(GridGeo(e.box, e.nx, e.ny), e.nx, e.ny) \o <<>>
           IN [shape_of_grid |-> e.osh = <<<<e.ny, e.nx>>, <<e.ny, e.nx>>>>,
               cell_centres |-> Len(e.r[1]) = Len(z) /\ Len(e.r[2]) = Len(z)
                                /\ \A k \in 1..Len(e.r[1]) : NearSeq(<<e.r[1][k], e.r[2][k]>>, z[k], "1/1000000000000")]
      [] e.op = "geot" -> [georeference_of_the_rectangle |-> NearSeq(e.r, GridGeo(e.box, e.nx, e.ny), "1/1000000000000")]
      [] e.op = "count" ->
           LET wx == RSub(e.box[3], e.box[1])  wy == RSub(e.box[4], e.box[2])
               Fits(n, w, g) == RLe(n, RAdd(RDiv(w, g), "1/1000000")) /\ RLt(RSub(RDiv(w, g), "1000001/1000000"), n)
           IN [whole_cells_that_fit |-> Fits(e.r[1], wx, e.gx) /\ Fits(e.r[2], wy, e.gy)]]
===========================================================================
