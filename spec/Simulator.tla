----------------------------- MODULE Simulator -----------------------------
(***************************************************************************)
(* Simulated pictures.  A simulator holds a source picture (an affine      *)
(* georeference over a band of samples) and a camera body: focal length,   *)
(* pitch, size, boresight.  A picture taken at a pose shows, at every      *)
(* pixel, the source at the point where the line of sight of that pixel    *)
(* meets the ground plane z = 0.  The camera is the composition of the     *)
(* boresight and the platform's attitude; its lines run downwards.         *)
(***************************************************************************)
EXTENDS Camera

\* the camera of a picture: body b, pose p = [xyz, t (half-angle tangents of roll, pitch, yaw), zu (unit of altitude)]
SimCam(b, p) ==
  [k |-> "fpa", pos |-> <<p.xyz[1], p.xyz[2], ToMetres(p.xyz[3], p.zu)>>,
   M |-> ShortM(MMul(RotT(b.order, b.bt), RotT("rpy", p.t))), f |-> ToMetres(b.f, b.fu),
   ppx |-> ToMetres(b.ppx, b.ppu), ppy |-> ToMetres(b.ppy, b.ppu), nx |-> b.nx, ny |-> b.ny, flipx |-> FALSE, flipy |-> TRUE]

\* focal plane position of a pixel (inverse of OnArray), slopes and direction of its line of sight
OffArray(cam, q) ==
  << RMul(Sign(cam.flipx), RSub(RMul(q[1], cam.ppx), RDiv(RMul(cam.nx, cam.ppx), 2))),
     RMul(Sign(cam.flipy), RSub(RMul(q[2], cam.ppy), RDiv(RMul(cam.ny, cam.ppy), 2))) >>
Sight(cam, q) == LET a == OffArray(cam, q) \o <<>>
                 IN MVec(Transpose(cam.M), << RNeg(RDiv(a[1], cam.f)), RNeg(RDiv(a[2], cam.f)), 1 >>) \o <<>>
\* where it meets the plane z = h
MeetsPlane(cam, q, h) ==
  LET d == Sight(cam, q)
      k == RDiv(RSub(h, cam.pos[3]), d[3])
  IN << RShort(RAdd(cam.pos[1], RMul(k, d[1]))), RShort(RAdd(cam.pos[2], RMul(k, d[2]))), h >>

\* ---- a source whose samples lie on a plane: value c0 + cx * column + cy * row
Ramp(s, p) == RAdd(s.c0, RAdd(RMul(s.cx, p[1]), RMul(s.cy, p[2])))
\* within the source by m samples; beyond it by m samples
WellInside(s, p, m) == RLe(m, p[1]) /\ RLe(p[1], RSub(s.nx - 1, m)) /\ RLe(m, p[2]) /\ RLe(p[2], RSub(s.ny - 1, m))
WellOutside(s, p, m) == RLt(p[1], RNeg(m)) \/ RLt(RAdd(s.nx - 1, m), p[1]) \/ RLt(p[2], RNeg(m)) \/ RLt(RAdd(s.ny - 1, m), p[2])
===========================================================================
