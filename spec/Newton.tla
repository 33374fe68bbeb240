------------------------------ MODULE Newton ------------------------------
(***************************************************************************)
(* Inverting a sensor at an altitude: Newton's iteration on the pixel      *)
(* residual with finite-difference derivatives.  State: the current ground *)
(* position; one step solves the linearised equations.                     *)
(***************************************************************************)
EXTENDS Camera
\* finite-difference Jacobian of F at q with steps d = <<dx, dy>>
Jac(F(_), q, d) ==
  LET f0 == F(q)
      fx == F(<<RAdd(q[1], d[1]), q[2]>>)
      fy == F(<<q[1], RAdd(q[2], d[2])>>)
  IN << <<RDiv(RSub(fx[1], f0[1]), d[1]), RDiv(RSub(fy[1], f0[1]), d[2])>>,
        <<RDiv(RSub(fx[2], f0[2]), d[1]), RDiv(RSub(fy[2], f0[2]), d[2])>> >>
Det2(m) == RSub(RMul(m[1][1], m[2][2]), RMul(m[1][2], m[2][1]))
NewtonStep(F(_), q, d, want) ==
  LET j == Jac(F, q, d)
      e == VSub(want, F(q))
      k == Det2(j)
  IN << RAdd(q[1], RDiv(RSub(RMul(e[1], j[2][2]), RMul(j[1][2], e[2])), k)),
        RAdd(q[2], RDiv(RSub(RMul(e[2], j[1][1]), RMul(j[2][1], e[1])), k)) >>
\* largest pixel residual
Resid(F(_), q, want) == LET e == VSub(want, F(q)) IN RMax(RAbs(e[1]), RAbs(e[2]))
===========================================================================
