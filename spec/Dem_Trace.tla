----------------------------- MODULE Dem_Trace -----------------------------
(***************************************************************************)
(* Judges recorded histories of one elevation model.                       *)
(*   open     the raster file as written, and the file's nodata value      *)
(*   load     another raster is given to the same model                    *)
(*   convert  heights converted between geoid and ellipsoid: e.und the     *)
(*            geoid's heights at the cells, e.got the cells of the file    *)
(*   frame    the projection and vertical reference the model reports      *)
(*   remove   missing cells marked      method   interpolation chosen      *)
(*   query    heights at world positions (native coordinates, pixel        *)
(*            positions follow from the case's geotransform)               *)
(*   extremes highest, lowest and mean height                              *)
(*   const    a constant model                                             *)
(*   reject   an unknown interpolation                                     *)
(***************************************************************************)
EXTENDS Dem, Camera, Judge
\* raw: the heights in the file behind the model; v: the heights it answers with
TInit(case) == [nx |-> 1, ny |-> 1, v |-> <<0>>, raw |-> <<0>>, m |-> "bilinear", told |-> <<>>]
TStep(case, st, e) ==
  CASE e.op = "open" ->
         [st |-> Remove([nx |-> e.nx, ny |-> e.ny, v |-> e.v, raw |-> e.v, m |-> e.m, told |-> IF RFin(e.nodata) THEN <<e.nodata>> ELSE <<>>], e.nodata), ck |-> [opens |-> e.err = ""]]
    [] e.op = "remove" -> [st |-> [Remove(st, e.nodata) EXCEPT !.told = <<e.nodata>>], ck |-> [no_error |-> e.err = ""]]
    [] e.op = "load" ->
         [st |-> MarkTold([st EXCEPT !.nx = e.nx, !.ny = e.ny, !.v = e.v, !.raw = e.v], st.told), ck |-> [no_error |-> e.err = ""]]
    [] e.op = "method" -> [st |-> [st EXCEPT !.m = e.m], ck |-> [no_error |-> e.err = ""]]
    [] e.op = "convert" ->
         LET was == MarkTold([st EXCEPT !.v = st.raw], st.told)     \* of all values ever marked, the file knows the last
             want == Shifted(was, e.und, e.dir)
             got == MarkTold([st EXCEPT !.v = e.got, !.raw = e.got], st.told)
         IN [st |-> got,
             ck |-> IF e.err # "" THEN [no_error |-> FALSE]
                    ELSE [same_grid |-> e.nx = st.nx /\ e.ny = st.ny /\ NearSeq(e.geot, case.g, "1/1000000000"),
                          source_file_unchanged |-> e.kept,
                          missing_stay_missing |-> Len(e.got) = Len(was.v) /\ \A k \in 1..Len(was.v) : Missing(was.v[k]) <=> Missing(got.v[k]),
                          shifted_by_the_geoid |-> Len(e.got) = Len(was.v) /\ \A k \in 1..Len(was.v) : RFin(was.v[k]) /\ RFin(got.v[k]) => RClose(got.v[k], want.v[k], e.tol)]]
    [] e.op = "frame" -> [st |-> st, ck |-> IF e.err # "" THEN [no_error |-> FALSE] ELSE [projection |-> Len(e.proj) = Len(e.wantproj) /\ NearSeq(e.proj, e.wantproj, "1/1000000000"), reference |-> e.ref = e.wantref]]
    [] e.op = "reject" -> [st |-> st, ck |-> [unknown_method_is_an_error |-> e.err # ""]]
    [] e.op = "query" ->
         [st |-> st,
          ck |-> IF e.err # "" THEN [no_error |-> FALSE]
                 ELSE LET span == RSub(Highest(st), Lowest(st))
                          P(i) == GeoPx(case.g, e.pts[i])
                      IN [shape_of_input |-> e.osh = e.sh,
                          one_height_per_point |-> Len(e.r) = Len(e.pts)] @@
                         (IF st.m = "nearest"
                          THEN [height_of_the_cell |-> \A i \in 1..Len(e.r) : IsNearest(st, P(i), e.r[i], e.eps)]
                          ELSE [blend_of_four_samples |-> \A i \in 1..Len(e.r) : IsBilinear(st, P(i), e.r[i], e.eps, RMax(span, RAbs(Highest(st))))])]
    [] e.op = "extremes" ->
         [st |-> st,
          ck |-> IF e.err # "" THEN [no_error |-> FALSE]
                 ELSE [highest |-> REq(e.hi, Highest(st)), lowest |-> REq(e.lo, Lowest(st)),
                       mean |-> RNear(e.mean, Mean(st), "1/100000")]]
    [] e.op = "const" ->
         [st |-> st,
          ck |-> IF e.err # "" THEN [no_error |-> FALSE]
                 ELSE [shape_of_input |-> e.osh = e.sh,
                       constant |-> \A i \in 1..Len(e.r) : REq(e.r[i], e.z),
                       one_height_per_point |-> Len(e.r) = SizeOf(e.sh),
                       extremes |-> REq(e.hi, e.z) /\ REq(e.lo, e.z) /\ REq(e.mean, e.z)]]
===========================================================================
