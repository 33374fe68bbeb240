--------------------------- MODULE Measure_Trace ---------------------------
(***************************************************************************)
(* Judges recorded measurements against Measure.  case.cams, case.src: the *)
(* cameras and bands of the image measured (empty for the other events).   *)
(* Planes are [nx, ny, v].                                                 *)
(*                                                                         *)
(* windows: means around ground points e.p, one row per band               *)
(* agree:   agreement of two pictures; they do not sit on a bin's border   *)
(* places:  where a mask holds each colour asked for, or anything          *)
(* warp:    a picture resampled at positions e.q                           *)
(* resize:  a picture in another size                                      *)
(***************************************************************************)
EXTENDS Measure, Judge
TInit(case) == [cams |-> [k \in 1..Len(case.cams) |-> Prepare(case.cams[k])] \o <<>>, src |-> case.src]
CamOf(st, b) == IF Len(st.cams) = 1 THEN st.cams[1] ELSE st.cams[b]
Same2(s, t) == Len(s) = Len(t) /\ \A k \in 1..Len(s) : s[k] = t[k]
Lesser2(a, b) == IF RLt(a, b) THEN a ELSE b
Greater2(a, b) == IF RLt(a, b) THEN b ELSE a
Mag(s) == RMaxOf([k \in 1..Len(s) |-> RAbs(s[k])] \o <<>>)
\* the window is placed on the pixel nearest to where the camera sees the point; either of two when it is in between
HalfTies(u, eps) == {RFloor(RAdd(RSub(u, eps), "1/2")), RFloor(RAdd(RAdd(u, eps), "1/2"))}
MeanOk(got, b, p, w, nodata) ==
  \E x \in HalfTies(p[1], "1/100000"), y \in HalfTies(p[2], "1/100000") :
     LET d == Data(b, Window(b, x, y, w), nodata)
     IN IF d = <<>> THEN ~ RFin(got) /\ got = "nan" ELSE RFin(got) /\ RClose(got, MeanOf(d), RMul("1/100000", RAdd("1/100", Mag(d))))
\* resampled at p: the source inside its frame, nodata a pixel beyond it, nothing foreign between
Warped(b, order, p, v, nodata, tol) ==
  LET eps == "1/1000000"
  IN IF Within(b.nx, b.ny, p, eps, RSub(b.nx - 1, eps), RSub(b.ny - 1, eps)) THEN IsSample(b, order, p, v, eps, tol)
     ELSE IF ~ Within(b.nx, b.ny, p, RSub(-1, eps), RAdd(b.nx, eps), RAdd(b.ny, eps)) THEN SameNum(v, nodata)
     ELSE IF order = 0 THEN SameNum(v, nodata) \/ IsSample(b, order, p, v, eps, tol)
     ELSE RFin(v) /\ RLe(RSub(Lesser2(nodata, RMinOf(b.v)), tol), v) /\ RLe(v, RAdd(Greater2(nodata, RMaxOf(b.v)), tol))
Rgb(e) == [k \in 1..(Len(e.v) \div e.nb) |-> <<e.v[((k - 1) * e.nb) + 1], e.v[((k - 1) * e.nb) + 2], e.v[((k - 1) * e.nb) + 3]>>] \o <<>>
Zip(ys, xs) == [k \in 1..Len(ys) |-> <<ys[k], xs[k]>>] \o <<>>

TStep(case, st, e) ==
  [st |-> st,
   ck |->
    IF e.err # "" THEN [no_error |-> FALSE]
    ELSE
    CASE e.op = "windows" ->
           [a_row_per_band |-> Len(e.r) = Len(st.src) /\ \A b \in 1..Len(e.r) : Len(e.r[b]) = Len(e.p)]
           @@ (IF Len(e.r) # Len(st.src) THEN <<>> ELSE
           [mean_of_the_data_around |-> \A b \in 1..Len(st.src), k \in 1..Len(e.p) :
               LET q == Px(CamOf(st, b), e.p[k]) IN (RFin(q[1]) /\ RFin(q[2])) => MeanOk(e.r[b][k], st.src[b], q, e.w, e.nodata)])
      [] e.op = "agree" ->
           [agreement |-> RFin(e.r) /\ LET a == Agreement(e.a, e.b, e.m) IN RClose(e.r, a, RMul("1/10000000", RAdd(1, RAbs(a))))]
      [] e.op = "places" ->
           [as_many_colours |-> Len(e.got) = Len(e.colours)]
           @@ [exactly_there |-> \A k \in 1..Len(e.got) : Same2(Zip(e.got[k][1], e.got[k][2]), Places(Rgb(e), e.nx, LAMBDA x : x = e.colours[k]))]
      [] e.op = "marked" -> [exactly_there |-> Same2(Zip(e.got[1], e.got[2]), Places(Rgb(e), e.nx, LAMBDA x : x # <<0, 0, 0>>))]
      [] e.op = "warp" ->
           [a_value_per_position |-> e.osh = e.sh /\ Len(e.v) = Len(e.q),
            source_value_or_nodata |-> Len(e.v) = Len(e.q) /\ \A k \in 1..Len(e.q) : Warped(e.src, e.order, e.q[k], e.v[k], e.nodata, RMul("1/1000000", RAdd(1, Mag(e.src.v))))]
      [] e.op = "resize" ->
           [size_as_asked |-> e.osh = <<e.ny, e.nx>> \o e.rest, sample_type |-> e.odt = e.dt,
            same_size_is_the_same |-> (e.ny = e.src.ny /\ e.nx = e.src.nx) => Same2(e.v, e.src.v),
            flat_stays_flat |-> (RMinOf(e.src.v) = RMaxOf(e.src.v)) => \A k \in 1..Len(e.v) : RClose(e.v[k], e.src.v[1], RMul("1/100000", RAbs(e.src.v[1])))]
      [] e.op = "opaque" ->
           [a_band_more |-> e.osh = <<e.ny, e.nx, e.nb + 1>>, sample_type |-> e.odt = e.dt,
            bands_kept |-> Len(e.v) = e.nb + 1 /\ \A b \in 1..e.nb : Same2(e.v[b], e.src[b]),
            opaque_where_first_band_has_data |-> Len(e.v) = e.nb + 1 /\ Len(e.v[e.nb + 1]) = e.nx * e.ny
               /\ \A k \in 1..(e.nx * e.ny) : SameNum(e.v[e.nb + 1][k], Alpha(e.src[1][k], e.nodata))]
      [] e.op = "dims" ->
           [grey_when_flat |-> e.grey = (Len(e.sh) = 2),
            rows_columns_bands |-> e.r = <<e.sh[1], e.sh[2], IF Len(e.sh) = 3 THEN e.sh[3] ELSE 1>>,
            columns_rows_bands_of_a_cube |-> Len(e.sh) = 3 => e.cube = <<e.sh[2], e.sh[1], e.sh[3]>>,
            kind_of_cube |-> e.is2 = (Len(e.sh) = 3) /\ e.is1 = (Len(e.sh) = 2)]]
=============================================================================
