----------------------------- MODULE Igm_Trace -----------------------------
(***************************************************************************)
(* Judges recorded histories of geolocation-grid images.                   *)
(*   make     an image from stored grids: sizes, grids, pixels             *)
(*   fwd      pixels -> positions, exactly the stored ones                 *)
(*   inv      stored positions -> their pixels                             *)
(*   between  positions inside the grid -> pixels inside the image         *)
(*   cast     an image made from a sensor over constant terrain: the       *)
(*            stored position of each pixel is imaged at that pixel        *)
(*   same     a call in another projection against reprojected positions   *)
(***************************************************************************)
EXTENDS Igm, Camera, Judge
TInit(case) == case.g
PxTol == "1/100"
TStep(case, g, e) ==
  [st |-> g,
   ck |->
    IF e.err # "" THEN [no_error |-> FALSE]
    ELSE
    CASE e.op = "make" ->
           [size |-> e.nx = g.nx /\ e.ny = g.ny /\ e.nb = g.nb,
            positions_kept |-> SameSeq(e.lon, g.lon) /\ SameSeq(e.lat, g.lat),
            altitude_of_every_pixel |-> SameSeq(e.alt, AltGrid(g)),
            pixels_kept |-> SameSeq(e.px, g.px),
            bands_kept |-> e.bands = [b \in 1..g.nb |-> [k \in 1..(g.nx * g.ny) |-> g.px[(k - 1) * g.nb + b]]],
            projection_kept |-> CloseSeq(e.crs, case.crs, "1/1000000")]
      [] e.op = "fwd" ->
           [shape_of_input |-> e.osh = <<e.sh, e.sh>>,
            the_stored_position |-> LET w == Positions(g, e.q)
                                    IN /\ SameSeq(e.r[1], [i \in 1..Len(w) |-> w[i][1]])
                                       /\ SameSeq(e.r[2], [i \in 1..Len(w) |-> w[i][2]])]
      [] e.op = "inv" ->
           [shape_of_input |-> e.osh = <<e.sh, e.sh>>,
            its_own_pixel |-> CloseSeq(e.r[1], [i \in 1..Len(e.q) |-> e.q[i][1]], PxTol)
                              /\ CloseSeq(e.r[2], [i \in 1..Len(e.q) |-> e.q[i][2]], PxTol)]
      [] e.op = "between" ->
           [shape_of_input |-> e.osh = <<e.sh, e.sh>>,
            \* a mean of neighbouring pixels; the grid of these cases is regular, so neighbours are near
            near_the_position |-> Len(e.r[1]) = Len(e.q) /\
               \A i \in 1..Len(e.q) : RClose(e.r[1][i], e.q[i][1], e.tol) /\ RClose(e.r[2][i], e.q[i][2], e.tol)]
      [] e.op = "same" ->
           [shape_of_input |-> e.osh = <<e.sh, e.sh>>, agrees |-> Len(e.r[1]) > 0 /\ NearSeq(e.r[1], e.want[1], e.tol) /\ NearSeq(e.r[2], e.want[2], e.tol)]
      [] e.op = "cast" ->
           LET cam == Prepare(case.cam)
           IN [size |-> e.nx = case.npix[1] /\ e.ny = case.npix[2] /\ e.nb = case.npix[3],
               pixels_kept |-> SameSeq(e.px, case.px),
               stored_position_is_imaged_at_its_pixel |->
                 /\ Len(e.lon) = e.nx * e.ny /\ Len(e.lat) = e.nx * e.ny
                 /\ \A k \in 1..(e.nx * e.ny) : LET q == Px(cam, <<e.lon[k], e.lat[k], case.z>>)
                      IN RClose(q[1], ColOf(e.nx, k), "3/100") /\ RClose(q[2], RowOf(e.nx, k), "3/100"),
               in_the_sensors_system |-> SameSeq(e.crs, e.wantcrs),
               bands_of_the_image |-> Len(e.bands) = e.nb /\ \A b \in 1..Len(e.bands) : Len(e.bands[b]) = e.nx * e.ny
                                      /\ \A k \in 1..Len(e.bands[b]) : SameNum(e.bands[b][k], case.px[((k - 1) * case.npix[3]) + b]),
               altitude_of_the_terrain |-> Len(e.alt) = e.nx * e.ny /\ \A k \in 1..Len(e.alt) : RNear(e.alt[k], case.z, "1/1000000000")]]
===========================================================================
