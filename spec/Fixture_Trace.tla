-------------------------- MODULE Fixture_Trace --------------------------
(***************************************************************************)
(* Judges histories of FixturedCamera objects (objects "a" and "b" of one  *)
(* history share nothing).  Setter events carry the arguments; xyz and m   *)
(* are the derived poses read back.                                        *)
(***************************************************************************)
EXTENDS Fixture, Judge
TInit(case) == [h \in {"a", "b"} |-> Empty]
NoErr(e) == [no_error |-> e.err = ""]
Tol == "1/100000000000"
TStep(case, st0, e) ==
  LET s == st0[e.h]
      Put(x) == [st |-> [st0 EXCEPT ![e.h] = x], ck |-> NoErr(e)]
  IN
  CASE e.op = "pos"     -> Put(SetPos(s, e.xyz))
    [] e.op = "att"     -> Put(SetAtt(s, MatOf(e.m, 3, 3)))
    [] e.op = "attrpy"  -> Put(SetAtt(s, RotT(e.order, e.t)))
    [] e.op = "arm"     -> Put(SetArm(s, e.xyz, e.u))
    [] e.op = "bore"    -> Put(SetBore(s, MatOf(e.m, 3, 3)))
    [] e.op = "borerpy" -> Put(SetBore(s, RotT(e.order, e.t)))
    [] e.op = "fixture_xyz" ->
         [st |-> st0, ck |-> IF HasPos(s) THEN [no_error |-> e.err = "", last_position |-> SameSeq(e.v, s.pos)]
                             ELSE [unspecified |-> TRUE]]
    [] e.op = "xyz" ->
         [st |-> st0, ck |-> IF HasXyz(s) THEN [no_error |-> e.err = "", camera_position |-> NearSeq(e.v, CameraXyz(s), Tol)]
                             ELSE [unspecified |-> TRUE]]
    [] e.op = "m" ->
         [st |-> st0, ck |-> IF HasM(s) THEN [no_error |-> e.err = "", camera_rotation |-> NearSeq(e.v, Flat(CameraM(s)), Tol)]
                             ELSE [unspecified |-> TRUE]]
==========================================================================
