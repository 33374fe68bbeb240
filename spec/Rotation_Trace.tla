------------------------- MODULE Rotation_Trace -------------------------
(***************************************************************************)
(* Judges recorded attitude calls.                                         *)
(*   matrix     create_M_matrix(angles, order); t = half-angle tangents    *)
(*   recover    solve_for_omega_phi_kappa(m); cs = (cos, sin) of each      *)
(*              returned angle                                             *)
(*   boresight  solve_for_boresight_angle_offsets(m1, m2)                  *)
(***************************************************************************)
EXTENDS Rotation, Judge
TInit(case) == 0
Tol == "1/1000000000000"      \* 1e-12: products of three unit factors in double precision
TStep(case, s, e) ==
  [st |-> s,
   ck |->
     IF e.err # "" THEN [no_error |-> FALSE]
     ELSE CASE e.op = "matrix" ->
            [three_by_three |-> e.o.sh = <<3, 3>>]
            @@ (IF e.o.sh # <<3, 3>> THEN <<>> ELSE
               LET m == MatOf(e.o.v, 3, 3)
               IN [is_the_composition |-> NearMat(m, RotT(e.order, e.t), Tol),
                   is_a_proper_rotation |-> ProperRotation(m, Tol)])
       [] e.op = "recover" ->
            LET m == MatOf(e.m, 3, 3)
                \* an arc sine near vertical loses half the digits; the matrices recorded keep cos(pitch) > 1/1000000
            IN [rebuilds_the_matrix |-> NearMat(Rot("rpy", e.cs[1], e.cs[2], e.cs[3]), m, "1/1000000000"),
                pitch_within_quarter_turn |-> RLe("-1/1000000000", e.cs[2][1])]
       [] e.op = "boresight" ->
            LET a == MatOf(e.a, 3, 3)
                b == MatOf(e.b, 3, 3)
            IN [shape |-> e.o.sh = <<3, 3>>,
                turns_first_into_second |-> e.o.sh = <<3, 3>> /\ NearMat(MMul(a, MatOf(e.o.v, 3, 3)), b, Tol)]]
===========================================================================
