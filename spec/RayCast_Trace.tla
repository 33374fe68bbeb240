-------------------------- MODULE RayCast_Trace ---------------------------
(***************************************************************************)
(* Judges recorded ray casts and obstruction masks over a known terrain    *)
(* (case.terrain) and camera (case.cam).                                   *)
(*                                                                         *)
(* cast: e.px the pixels, e.r = <<lons, lats, alts>> in native             *)
(* coordinates, e.d the sampling distance, e.top the height the rays start *)
(* at, e.slope a bound on the terrain's slope (0 for constant terrain).    *)
(*   - the point is imaged at its pixel;                                   *)
(*   - its altitude is the terrain height there, up to the slope times the *)
(*     sampling distance (exactly, where the terrain is one plane);        *)
(*   - between the sensor and the point no stretch of the line of sight    *)
(*     one sampling distance long lies under the terrain: the point is the *)
(*     first intersection.                                                 *)
(*                                                                         *)
(* mask: e.m the obstruction flags of ground points e.pts seen at pixels   *)
(* e.px.  Terrain over the line of sight along more than one step of the   *)
(* resolution must be flagged; a line of sight clear of the terrain must   *)
(* not.                                                                    *)
(***************************************************************************)
EXTENDS Terrain, Judge
TInit(case) == [cam |-> Prepare(case.cam), t |-> case.terrain]
PixelTol == "3/100"     \* the two ends of a ray are solved for to a hundredth of a pixel
N == 72                 \* parts a line of sight is examined in
M == 44                 \* and of an obstruction

\* where the line of sight through p (world triple) reaches height z: towards the camera, or straight up
UpTo(cam, p, z) ==
  IF cam.k = "geot" THEN <<p[1], p[2], z>>
  ELSE Along(p, cam.pos, RDiv(RSub(z, p[3]), RSub(cam.pos[3], p[3])))
\* how many consecutive parts make up the distance d
Parts(a, b, n, d) ==
  LET h == RDiv(Horizontal(a, b), n)
  IN IF RLe(h, 0) THEN n ELSE LET q == RDiv(d, h) IN IF RLe(n, q) THEN n ELSE RAdd(RFloor(q), 2)

TStep(case, st, e) ==
  [st |-> st,
   ck |->
    IF e.err # "" THEN [no_error |-> FALSE]
    ELSE
    CASE e.op = "cast" ->
           LET n == Len(e.px)
               P(i) == <<e.r[1][i], e.r[2][i], e.r[3][i]>>
               Loose == RAdd("1/1000", RMul(e.slope, e.d))
               \* the ray itself is known to the solver's fraction of a pixel
               Tol == RAdd("1/1000", RMul(e.slope, RDiv(e.gsd, 10)))
           IN [shape_of_input |-> e.osh = <<e.sh, e.sh, e.sh>>,
               one_point_per_pixel |-> \A k \in 1..3 : Len(e.r[k]) = n,
               on_the_line_of_sight |-> \A i \in 1..n : LET q == Px(st.cam, P(i)) IN RClose(q[1], e.px[i][1], PixelTol) /\ RClose(q[2], e.px[i][2], PixelTol),
               on_the_terrain |-> \A i \in 1..n : RClose(e.r[3][i], Height(st.t, e.r[1][i], e.r[2][i]), IF e.plane THEN "1/1000" ELSE Loose),
               first_intersection |-> \A i \in 1..n :
                  LET up == UpTo(st.cam, P(i), e.top)
                      run == Parts(P(i), up, N, e.d)
                  IN run >= N \/ ~ LongRun(st.t, P(i), up, N, Tol, run)]
      [] e.op = "other" ->
           [same_point_in_the_projection_asked_for |-> NearSeq(e.r[1], e.want[1], "1/1000000000") /\ NearSeq(e.r[2], e.want[2], "1/1000000000"),
            same_altitude |-> SameSeq(e.r[3], e.want[3])]
      [] e.op = "mask" ->
           LET n == Len(e.pts)
               Up(i) == UpTo(st.cam, e.pts[i], e.top)
           IN [shape_of_input |-> e.osh = e.sh,
               one_flag_per_point |-> Len(e.m) = n,
               flags |-> \A i \in 1..Len(e.m) : REq(e.m[i], 0) \/ REq(e.m[i], 1),
               obstructed_is_flagged |-> \A i \in 1..n :
                  LET up == Up(i)
                      run == Parts(e.pts[i], up, M, e.d)
                  IN (run < M /\ LongRun(st.t, e.pts[i], up, M, e.tol, run)) => REq(e.m[i], 1),
               clear_is_not_flagged |-> \A i \in 1..n :
                  LET up == Up(i)
                      \* the terrain may come this much nearer between the parts examined
                      between == RAdd(RDiv(RAdd(RMul(e.slope, Horizontal(e.pts[i], up)), RSub(up[3], e.pts[i][3])), 3 * M), e.tol)
                  IN ~ Above(st.t, e.pts[i], up, 2 * M, RNeg(between), e.first) => REq(e.m[i], 0)]]
===========================================================================
