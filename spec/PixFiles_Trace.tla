--------------------------- MODULE PixFiles_Trace ---------------------------
(***************************************************************************)
(* Judges what was read from recorded parameter files, and the cameras     *)
(* built from them.                                                        *)
(*   ext cal int   one file                                                *)
(*   master        all of them, by image                                   *)
(*   px            world points through the camera of image e.i            *)
(*   pm            a file of projection matrices                           *)
(***************************************************************************)
EXTENDS PixFiles, Camera, Judge
TInit(case) == IF case.f = <<>> THEN <<>> ELSE Master(case.f)
Same(a, b) == SameSeq(a, b)
CalSame(e, c) == /\ Same(e.size, c.size) /\ Same(e.k, c.k) /\ Same(e.radial, c.radial) /\ Same(e.tangential, c.tangential)
                 /\ Same(e.t, c.t) /\ Same(e.r, c.r)
IntSame(e, b) == /\ Same(e.size, b.size) /\ DOMAIN e.vals = {b.vals[j].key : j \in 1..Len(b.vals)}
                 /\ \A j \in 1..Len(b.vals) : SameNum(e.vals[b.vals[j].key], b.vals[j].x)
KeysOf(s) == [i \in 1..Len(s) |-> s[i].key] \o <<>>
TStep(case, m, e) ==
  [st |-> m,
   ck |->
    IF e.err # "" THEN [no_error |-> FALSE]
    ELSE
    CASE e.op = "ext" -> LET w == External(case.f.ext)
                         IN [images_in_order |-> KeysOf(e.rows) = KeysOf(w),
                             own_pose |-> Len(e.rows) = Len(w) /\ \A i \in 1..Len(w) : Same(e.rows[i].v, w[i].v)]
      [] e.op = "cal" -> LET w == Calibrated(case.f.cal)
                         IN [images_in_order |-> KeysOf(e.rows) = KeysOf(w),
                             own_calibration |-> Len(e.rows) = Len(w) /\ \A i \in 1..Len(w) : CalSame(e.rows[i], w[i])]
      [] e.op = "int" -> LET w == Internal(case.f.int)
                         IN [every_camera_in_order |-> Len(e.rows) = Len(w) /\ \A i \in 1..Len(w) : IntSame(e.rows[i], w[i])]
      [] e.op = "master" ->
           [images_in_order |-> KeysOf(e.rows) = [i \in 1..Len(m) |-> m[i].cal.key] \o <<>>,
            own_calibration |-> Len(e.rows) = Len(m) /\ \A i \in 1..Len(m) : CalSame(e.rows[i], m[i].cal),
            own_pose |-> Len(e.rows) = Len(m) /\ \A i \in 1..Len(m) : Same(e.rows[i].ext, m[i].ext),
            camera_of_the_image |-> Len(e.rows) = Len(m) /\ \A i \in 1..Len(m) : IntSame(e.rows[i].int, m[i].int),
            rotation_of_the_angles |-> \A i \in 1..Len(e.rows) : e.rows[i].tans = <<>> \/
               NearSeq(e.rows[i].rcomp, Flat(Transpose(RotT("rpy", e.rows[i].tans))), "1/1000000000"),
            projection_of_the_file |-> CloseSeq(e.crs, case.crs, "1/1000000")]
      [] e.op = "px" ->
           LET cam == Prepare(CameraOf(m[e.i], e.model, e.rev))
           IN [is_the_models_pixel |-> Len(e.r[1]) = Len(e.pts) /\ Len(e.r[2]) = Len(e.pts) /\ \A j \in 1..Len(e.pts) :
                 LET q == Px(cam, e.pts[j]) IN RNear(e.r[1][j], q[1], "1/1000000") /\ RNear(e.r[2][j], q[2], "1/1000000"),
               projection_of_the_file |-> CloseSeq(e.crs, case.crs, "1/1000000")]
      [] e.op = "pm" -> [every_matrix |-> KeysOf(e.rows) = KeysOf(e.want) /\ \A i \in 1..Len(e.want) : Same(e.rows[i].v, e.want[i].v)]]
=============================================================================
