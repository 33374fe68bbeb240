---------------------------- MODULE Camera_MC ----------------------------
(***************************************************************************)
(* Laws of the sensor models, over a grid of exact poses, intrinsics and   *)
(* points.  Each state is a camera and a world point; steps move the point *)
(* along its ray, or camera and point together.                            *)
(***************************************************************************)
EXTENDS Camera, TLC, Json
CONSTANTS Tans, Steps
\* equal, up to the rounding of Slopes
SamePx(a, b) == CloseSeq(a, b, "1/1000000000000000000000000")
VARIABLES t, flips, w, cam, p, n, px0
vars == <<t, flips, w, cam, p, n, px0>>

Desc(tt, fl) == [k |-> "fpa", x |-> 500, y |-> -200, z |-> 1000, zu |-> "meters", t |-> tt, f |-> 50, fu |-> "mm",
                 ppx |-> 5, ppxu |-> "um", ppy |-> 4, ppyu |-> "um", nx |-> 640, ny |-> 480, flipx |-> fl[1], flipy |-> fl[2]]
\* the world point whose camera-frame direction is v (v[3] < 0 is in front)
Out(c, v) == VAdd(c.pos, MVec(Transpose(c.M), v))
Fronts == {<<"0", "0", "-1000">>, <<"30", "-40", "-1000">>, <<"-7", "11", "-500">>}

Init == /\ t \in Tans \X Tans \X Tans
        /\ flips \in BOOLEAN \X BOOLEAN
        /\ w \in Fronts
        /\ cam = Prepare(Desc(t, flips))
        /\ p = Out(cam, w)
        /\ px0 = Px(cam, p)
        /\ n = 0
AlongRay  == /\ n < Steps
             /\ p' = VAdd(cam.pos, VScale("5/3", VSub(p, cam.pos)))
             /\ n' = n + 1
             /\ UNCHANGED <<t, flips, w, cam, px0>>
Translate == /\ n < Steps
             /\ LET d == <<"17/10", -23, "1/7">>
                IN cam' = [cam EXCEPT !.pos = VAdd(cam.pos, d)] /\ p' = VAdd(p, d)
             /\ n' = n + 1
             /\ UNCHANGED <<t, flips, w, px0>>
Next == AlongRay \/ Translate
Spec == Init /\ [][Next]_vars

SamePixel == SamePx(Px(cam, p), px0)
AxisAtCentre == SamePx(Px(cam, Out(cam, <<0, 0, -700>>)), <<RDiv(cam.nx, 2), RDiv(cam.ny, 2)>>)
\* one pixel off the centre subtends pitch over focal length
PixelField ==
  LET q == Px(cam, Out(cam, <<RMul(Sign(cam.flipx), cam.ppx), 0, RNeg(cam.f)>>))
      r == Px(cam, Out(cam, <<0, RMul(Sign(cam.flipy), cam.ppy), RNeg(cam.f)>>))
  IN  /\ SamePx(q, <<RAdd(RDiv(cam.nx, 2), 1), RDiv(cam.ny, 2)>>)
      /\ SamePx(r, <<RDiv(cam.nx, 2), RAdd(RDiv(cam.ny, 2), 1)>>)
\* an undistorted OpenCV camera is the focal plane camera with its x axis flipped, at the same focal length in pixels
Undistorted ==
  LET o == [k |-> "opencv", pos |-> cam.pos, M |-> cam.M, fx |-> RDiv(cam.f, cam.ppx), fy |-> RDiv(cam.f, cam.ppy),
            cx |-> RDiv(cam.nx, 2), cy |-> RDiv(cam.ny, 2), k1 |-> 0, k2 |-> 0, k3 |-> 0, p1 |-> 0, p2 |-> 0]
      i == [cam EXCEPT !.flipx = TRUE, !.flipy = FALSE]
      d == [k |-> "pix4d", pos |-> cam.pos, M |-> cam.M, fpix |-> RDiv(cam.f, cam.ppx), px |-> RDiv(cam.nx, 2),
            py |-> RDiv(cam.ny, 2), model |-> "regular", revx |-> TRUE, revy |-> TRUE, k1 |-> 0, k2 |-> 0, k3 |-> 0, p1 |-> 0, p2 |-> 0]
  IN  /\ SamePx(Px(o, p), Px(i, p))
      /\ SamePx(Px(d, p), OnArray([cam EXCEPT !.flipx = TRUE, !.flipy = TRUE, !.ppy = cam.ppx],
                                   Plane(cam, p)))
\* distortion without tangential terms moves a point along its radius
Radial == LET s == Slopes(cam.pos, cam.M, p)
              q == Distort([k1 |-> "1/10", k2 |-> "-1/50", k3 |-> 1, p1 |-> 0, p2 |-> 0], s)
          IN REq(RMul(q[1], s[2]), RMul(q[2], s[1]))
\* the affine georeference and its inverse undo each other
Geo == LET g == <<p[1], "3/2", "1/4", p[2], "-1/8", "-2">>
       IN SamePx(GeoPx(g, GeoWorld(g, px0)), px0) /\ SamePx(GeoWorld(g, GeoPx(g, p)), <<p[1], p[2]>>)
Emit == n = 0 => PrintT("@@BEH " \o ToJson([t |-> t, flips |-> flips, p |-> p]))
===========================================================================
