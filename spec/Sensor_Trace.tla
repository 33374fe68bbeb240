--------------------------- MODULE Sensor_Trace ---------------------------
(***************************************************************************)
(* Judges recorded calls of sensors (point calculators).  A case names its *)
(* cameras (cams, possibly none); events name the camera by index b.       *)
(*                                                                         *)
(* Directions against the camera model:                                    *)
(*   px      world points -> pixels                                        *)
(*   plane   world points -> focal plane (metres)                          *)
(*   ifov    tangents of the reported pixel fields of view                 *)
(*   inv     pixels and altitudes -> world positions, within a tolerance   *)
(*   geoinv  the same where the inverse is direct                          *)
(*   extent  the native extent of an affine georeference                   *)
(*   utm     the local projection chosen for a position                    *)
(* Interface laws, for any calculator:                                     *)
(*   lift    a call on arrays against calls on the elements                *)
(*   same    two calls that must agree (reprojected first; altitude forms; *)
(*           sensor model against its own band's calculator)               *)
(*   coreg   the coregistration report                                     *)
(***************************************************************************)
EXTENDS Camera, Judge
TInit(case) == [i \in 1..Len(case.cams) |-> Prepare(case.cams[i])]

\* two-coordinate results e.r = <<xs, ys>>
Near2(r, i, want, tol) == RNear(r[1][i], want[1], tol) /\ RNear(r[2][i], want[2], tol)
SameLen(r, n) == Len(r[1]) = n /\ Len(r[2]) = n
ShapeCk(e) == [shape_of_input |-> e.osh = <<e.sh, e.sh>>]
PxTol == "1/1000000"     \* 1e-6 pixels (positions of 1e6 m carry 1e-9 m, at depths of 50 m and more), relative beyond one pixel

TStep(case, cams, e) ==
  [st |-> cams,
   ck |->
    IF e.err # "" THEN [no_error |-> FALSE]
    ELSE
    CASE e.op = "px" ->
           LET cam == cams[e.b]
           IN ShapeCk(e) @@
              [is_the_models_pixel |-> SameLen(e.r, Len(e.pts)) /\ \A i \in 1..Len(e.pts) : Near2(e.r, i, Px(cam, e.pts[i]), PxTol)]
      [] e.op = "plane" ->
           LET cam == cams[e.b]
           IN [collinearity |-> SameLen(e.r, Len(e.pts)) /\
                 \A i \in 1..Len(e.pts) : LET q == Plane(cam, e.pts[i])
                    IN RClose(e.r[1][i], q[1], RMul(RMax(1, RAbs(q[1])), "1/1000000000")) /\ RClose(e.r[2][i], q[2], RMul(RMax(1, RAbs(q[2])), "1/1000000000"))]
      [] e.op = "ifov" ->
           LET cam == cams[e.b]
               want == RDiv(IF e.axis = "x" THEN cam.ppx ELSE cam.ppy, cam.f)
           IN [pitch_over_focal_length |-> RClose(e.tan, want, RMul(want, "1/1000000000"))]
      [] e.op = "inv" ->
           LET cam == cams[e.b]
           IN ShapeCk(e) @@
              [lands_on_the_pixel |-> SameLen(e.r, Len(e.px)) /\
                 \A i \in 1..Len(e.px) : LET q == Px(cam, <<e.r[1][i], e.r[2][i], e.alts[i]>>)
                    IN RClose(q[1], e.px[i][1], e.tol) /\ RClose(q[2], e.px[i][2], e.tol)]
      [] e.op = "settled" ->        \* one more iteration allowed changes nothing: the limit was not reached
           LET cam == cams[e.b]
           IN ShapeCk(e) @@
              [lands_on_the_pixel |-> SameLen(e.r, Len(e.px)) /\
                 (e.r = e.more /\ (\A i \in 1..Len(e.px) : RFin(e.r[1][i]) /\ RFin(e.r[2][i])) =>
                   \A i \in 1..Len(e.px) : LET q == Px(cam, <<e.r[1][i], e.r[2][i], e.alts[i]>>)
                      IN RClose(q[1], e.px[i][1], e.tol) /\ RClose(q[2], e.px[i][2], e.tol))]
      [] e.op = "geoinv" ->
           LET cam == cams[e.b]
           IN ShapeCk(e) @@
              [affine_position |-> SameLen(e.r, Len(e.px)) /\
                 \A i \in 1..Len(e.px) : LET q == GeoWorld(cam.g, e.px[i])
                                             s == RMul("1/100000000000", RAdd(1, RAdd(RAbs(cam.g[1]), RAbs(cam.g[4]))))
                                         IN RClose(e.r[1][i], q[1], RAdd(s, RMul(RAbs(q[1]), "1/100000000000")))
                                            /\ RClose(e.r[2][i], q[2], RAdd(s, RMul(RAbs(q[2]), "1/100000000000")))]
      [] e.op = "extent" ->
           LET g == cams[e.b].g
               corners == <<GeoWorld(g, <<0, 0>>), GeoWorld(g, <<e.nx, 0>>), GeoWorld(g, <<e.nx, e.ny>>), GeoWorld(g, <<0, e.ny>>)>>
               tol == RMul("1/1000000000000", RAdd(1, RAdd(RAbs(g[1]), RAbs(g[4]))))
               Is(v, c) == RClose(v[1], c[1], tol) /\ RClose(v[2], c[2], tol)
           IN [every_corner_is_a_vertex |-> \A i \in 1..4 : \E k \in 1..Len(e.v) : Is(e.v[k], corners[i]),
               every_vertex_is_a_corner |-> \A k \in 1..Len(e.v) : \E i \in 1..4 : Is(e.v[k], corners[i]),
               area_of_the_image |-> RNear(e.area, RMul(RAbs(GeoDet(g)), e.nx * e.ny), "1/100000")]
      [] e.op = "utm" ->
           LET z == UtmZone(e.lon, e.lat)
               c == CHOOSE k \in 1..Len(e.cands) : REq(e.cands[k].zone, z.zone) /\ e.cands[k].south = z.south
           IN [zone_of_the_position |-> CloseSeq(e.v, e.cands[c].v, "1/1000000")]
      [] e.op = "lift" ->
           ShapeCk(e) @@
           [elementwise |-> SameLen(e.r, Len(e.one[1])) /\
                            \A i \in 1..Len(e.one[1]) : RNear(e.r[1][i], e.one[1][i], e.tol) /\ RNear(e.r[2][i], e.one[2][i], e.tol),
            inputs_unchanged |-> e.unchanged]
      [] e.op = "same" ->
           ShapeCk(e) @@
           [agrees |-> Len(e.r[1]) > 0 /\ SameLen(e.r, Len(e.want[1])) /\ SameLen(e.want, Len(e.want[1])) /\
              \A i \in 1..Len(e.want[1]) :
                 IF e.tol = "0" THEN REq(e.r[1][i], e.want[1][i]) /\ REq(e.r[2][i], e.want[2][i])
                 ELSE RNear(e.r[1][i], e.want[1][i], e.tol) /\ RNear(e.r[2][i], e.want[2][i], e.tol)]
      [] e.op = "coreg" -> [coregistration |-> e.got = e.want]]
===========================================================================
