-------------------------- MODULE Simulator_Trace --------------------------
(***************************************************************************)
(* Judges recorded simulators.  case.body: the camera body, case.src the   *)
(* source: g (georeference in its own world ), nx, ny, c0, cx, cy.  *)
(*                                                                         *)
(* shoot: a picture at pose e.pose, e.v in row order; e.told: what the     *)
(*        picture object says of itself; e.there: the places of the ground *)
(*        points e.ground in the source's world, when it is another one    *)
(* px:    world points e.pts through the camera of the last picture        *)
(***************************************************************************)
EXTENDS Simulator, Judge
TInit(case) == <<>>
Corner == << <<"11/1000", "11/1000">>, <<"11/1000", "-11/1000">>, <<"-11/1000", "11/1000">>, <<"-11/1000", "-11/1000">> >>
\* how far the ground may be off: the solver stops within a hundredth of a pixel
Blur(cam, q, G) == LET away(k) == MeetsPlane(cam, <<RAdd(q[1], Corner[k][1]), RAdd(q[2], Corner[k][2])>>, 0)
                   IN RMul("3/2", RMaxOf([k \in 1..4 |-> RMax(RAbs(RSub(away(k)[1], G[1])), RAbs(RSub(away(k)[2], G[2])))] \o <<>>))
\* samples per unit of the source's world
Fine(g) == RDiv(RAdd(RAdd(RAbs(g[2]), RAbs(g[3])), RAdd(RAbs(g[5]), RAbs(g[6]))), RAbs(GeoDet(g)))
\* W: the place of G in the source's world
PixelOk(src, v, W, blur) ==
  LET at == GeoPx(src.g, W)
      d == RAdd("1/1000", RMul(Fine(src.g), blur))
  IN IF WellInside(src, at, 14)
     THEN RClose(v, Ramp(src, at), RAdd(src.step, RMul(RAdd(RAbs(src.cx), RAbs(src.cy)), d)))
     ELSE WellOutside(src, at, 2) => REq(v, 0)
TStep(case, st, e) ==
  IF e.err # "" THEN [st |-> st, ck |-> [no_error |-> FALSE]]
  ELSE
  CASE e.op = "shoot" ->
         LET cam == SimCam(case.body, e.pose)
             nx == case.body.nx
             Q(k) == <<(k - 1) % nx, (k - 1) \div nx>>
             own == e.there = <<>>
         IN [st |-> <<cam>>,
             ck |-> [size_of_the_body |-> e.osh = <<case.body.ny, nx, 1>> /\ e.told = <<nx, case.body.ny, 1>>,
                     source_on_the_line_of_sight |-> Len(e.v) = nx * case.body.ny /\ \A k \in 1..Len(e.v) :
                        LET G == MeetsPlane(cam, Q(k), 0) \o <<>>
                        IN /\ own \/ (RClose(e.ground[k][1], G[1], "1/1000") /\ RClose(e.ground[k][2], G[2], "1/1000"))
                           /\ PixelOk(case.src, e.v[k], IF own THEN G ELSE e.there[k], Blur(cam, Q(k), G))]]
    [] e.op = "px" ->
         [st |-> st,
          ck |-> [shape_of_input |-> e.osh = <<e.sh, e.sh>>,
                 camera_of_the_picture |-> Len(e.r[1]) = Len(e.pts) /\ \A k \in 1..Len(e.pts) :
                    LET q == Px(st[1], e.pts[k]) IN RClose(e.r[1][k], q[1], "1/500") /\ RClose(e.r[2][k], q[2], "1/500")]]
===========================================================================
