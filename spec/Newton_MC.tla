----------------------------- MODULE Newton_MC -----------------------------
(***************************************************************************)
(* The iteration on exact cameras: from the point below the camera, for    *)
(* pixels over the array.  Vertical cameras of every heading (including    *)
(* those whose pixel axes are parallel to either ground axis, where single *)
(* derivatives vanish) land exactly in one step; tilted ones converge, the *)
(* residual falling below the tolerance within Steps steps.                *)
(***************************************************************************)
EXTENDS Newton, TLC, Json
CONSTANTS Yaws, Tilts, Steps
VARIABLES t, want, cam, q, n
vars == <<t, want, cam, q, n>>
Desc(tt) == [k |-> "fpa", x |-> 500, y |-> -200, z |-> 1000, zu |-> "meters", t |-> tt, f |-> 50, fu |-> "mm",
             ppx |-> 50, ppxu |-> "um", ppy |-> 50, ppyu |-> "um", nx |-> 640, ny |-> 480, flipx |-> FALSE, flipy |-> FALSE]
F(x) == Px(cam, <<x[1], x[2], 100>>)
Init == /\ t \in Tilts \X Tilts \X Yaws
        /\ want \in {<<0, 0>>, <<320, 240>>, <<640, 17>>}
        /\ cam = Prepare(Desc(t))
        /\ q = <<500, -200>>
        /\ n = 0
Tol == "1/100"
\* positions are rounded to a millimetre, as any finite representation does
Rounded(x) == <<RDiv(RFloor(RMul(x[1], 1000)), 1000), RDiv(RFloor(RMul(x[2], 1000)), 1000)>>
Next == /\ n < Steps /\ RLt(Tol, Resid(F, q, want))
        /\ q' = Rounded(NewtonStep(F, q, <<1, 1>>, want))
        /\ n' = n + 1
        /\ UNCHANGED <<t, want, cam>>
Spec == Init /\ [][Next]_vars
Vertical == REq(t[1], 0) /\ REq(t[2], 0)
OneStepWhenVertical == (Vertical /\ n = 1) => RLe(Resid(F, q, want), Tol)
Converges == n = Steps => RLe(Resid(F, q, want), Tol)
Solvable == ~ REq(Det2(Jac(F, q, <<1, 1>>)), 0)
===========================================================================
