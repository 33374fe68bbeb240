------------------------- MODULE SensorModel_Trace -------------------------
(***************************************************************************)
(* Judges histories of multi-band sensors.  cams are the cameras of the    *)
(* case; st.ids is the specification's assembly.  Queries carry the answer *)
(* of every calculator of the case alone (e.alone[id]); the sensor must    *)
(* answer as the right one, and as its camera model images.                *)
(***************************************************************************)
EXTENDS Camera, SensorModel, Judge
TInit(case) == [cams |-> [i \in 1..Len(case.cams) |-> Prepare(case.cams[i])], ids |-> <<>>]
NoErr(e) == [no_error |-> e.err = ""]
Same2(a, b) == Len(a[1]) = Len(b[1]) /\ Len(a[2]) = Len(b[2]) /\ Len(a[1]) > 0
               /\ \A i \in 1..Len(a[1]) : REq(a[1][i], b[1][i]) /\ REq(a[2][i], b[2][i])
TStep(case, s, e) ==
  CASE e.op = "set" -> [st |-> [s EXCEPT !.ids = SetCalcs(s.ids, e.ids)], ck |-> NoErr(e)]
    [] e.op = "add" -> [st |-> [s EXCEPT !.ids = AddCalc(s.ids, e.id)], ck |-> NoErr(e)]
    [] e.op = "upd" -> [st |-> [s EXCEPT !.ids = UpdCalc(s.ids, e.k, e.id)], ck |-> NoErr(e)]
    [] e.op = "query" ->
         [st |-> s,
          ck |-> IF e.err # "" THEN NoErr(e)
                 ELSE LET id == Answers(s.ids, e.k)
                          cam == s.cams[id]
                      IN [no_error |-> TRUE, shape |-> e.osh = <<e.sh, e.sh>>, as_its_calculator_alone |-> Same2(e.r, e.alone[id]),
                          as_its_camera |-> \A i \in 1..Len(e.pts) : LET q == Px(cam, e.pts[i]) IN RNear(e.r[1][i], q[1], "1/1000000") /\ RNear(e.r[2][i], q[2], "1/1000000")]]
    [] e.op = "inverse" ->
         [st |-> s,
          ck |-> IF e.err # "" THEN NoErr(e)
                 ELSE LET id == Answers(s.ids, e.k)
                          cam == s.cams[id]
                      IN [no_error |-> TRUE, shape |-> e.osh = <<e.sh, e.sh>>,
                          lands_on_that_bands_pixel |-> \A i \in 1..Len(e.px) : LET q == Px(cam, <<e.r[1][i], e.r[2][i], e.alt>>)
                             IN RClose(q[1], e.px[i][1], "11/1000") /\ RClose(q[2], e.px[i][2], "11/1000")]
                         @@ (IF e.direct # <<>> THEN [direct_inverse_as_its_calculator |-> Same2(e.r, e.direct[id])] ELSE <<>>)]
    [] e.op = "members" -> [st |-> s, ck |-> [no_error |-> e.err = "", members |-> e.err = "" /\ e.ids = s.ids /\ e.n = Len(s.ids)]]
    [] e.op = "proj" -> [st |-> s, ck |-> [no_error |-> e.err = "", every_member_has_the_new_projection |-> e.err = "" /\ Len(e.got) = e.n + 1 /\ \A i \in 1..Len(e.got) : e.got[i] = e.want]]
    [] e.op = "coreg" -> [st |-> s, ck |-> [not_coregistered |-> e.err = "" /\ e.got = FALSE]]
===========================================================================
