----------------------------- MODULE Nav_Trace -----------------------------
(***************************************************************************)
(* Judges recorded navigation sources.  A case holds what was stored: the  *)
(* lines of a text file, or the rows of a binary one.                      *)
(*   load   what the source says of itself                                 *)
(*   ask    one quantity at times of some shape                            *)
(*   recs   whole records                                                  *)
(***************************************************************************)
EXTENDS Nav, Judge
EoNames == <<"gps_time", "easting", "northing", "height", "omega", "phi", "kappa", "lat", "lon">>
SbetNames == <<"gps_time", "y", "x", "z", "x_velocity", "y_velocity", "z_velocity", "roll", "pitch", "azimuth", "wander_angle",
               "x_body_accel", "y_body_accel", "z_body_accel", "x_body_ang_rate", "y_body_ang_rate", "z_body_ang_rate">>
Names(case) == IF case.kind = "eo" THEN EoNames ELSE SbetNames
Index(names, s) == CHOOSE j \in 1..Len(names) : names[j] = s
Meant(case, what) ==
  LET eo == case.kind = "eo"
  IN CASE what = "xs" -> IF eo THEN "easting" ELSE "x"
       [] what = "ys" -> IF eo THEN "northing" ELSE "y"
       [] what = "alts" -> IF eo THEN "height" ELSE "z"
       [] what = "rolls" -> IF eo THEN "omega" ELSE "roll"
       [] what = "pitches" -> IF eo THEN "phi" ELSE "pitch"
       [] what = "headings" -> IF eo THEN "kappa" ELSE "azimuth"
TInit(case) == IF case.kind = "eo" THEN Loaded(case.lines)
               ELSE [i \in 1..Len(case.rows) |-> [t |-> case.rows[i][1], v |-> case.rows[i]]] \o <<>>
Tol == "1/10000000"
TStep(case, rec, e) ==
  [st |-> rec,
   ck |->
    IF e.err # "" THEN [no_error |-> FALSE]
    ELSE
    CASE e.op = "load" -> [every_record_kept |-> e.n = Len(rec), projection_given |-> CloseSeq(e.crs, case.crs, "1/1000000")]
      [] e.op = "ask" ->
         LET w == Answer(rec, e.q, Index(Names(case), Meant(case, e.what)))
         IN IF w = <<>> THEN [nothing_outside_the_recording |-> e.none]
            ELSE [answered |-> ~ e.none, shape_of_times |-> e.none \/ e.osh = e.sh, on_the_line_between_records |-> e.none \/ NearSeq(e.r, w, Tol)]
      [] e.op = "recs" ->
         LET names == Names(case)
             inside == Answer(rec, e.q, 1) # <<>>
         IN IF ~ inside THEN [nothing_outside_the_recording |-> e.none]
            ELSE [answered |-> ~ e.none, shape_of_times |-> e.none \/ e.osh = e.sh,
                  records_on_the_line_between |-> e.none \/ \A j \in 1..Len(names) :
                     LET w == Answer(rec, e.q, j)
                     IN Len(e.recs) = Len(e.q) /\ \A i \in 1..Len(e.q) : names[j] \in DOMAIN e.recs[i] /\ RNear(e.recs[i][names[j]], w[i], Tol)]]
===========================================================================
