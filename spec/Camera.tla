------------------------------ MODULE Camera ------------------------------
(***************************************************************************)
(* Sensor models: the pixel <<x, y>> at which a world point is imaged.     *)
(*                                                                         *)
(*  fpa     pinhole camera (collinearity equations) with a focal plane     *)
(*          array centred on the optical axis, optional axis flips         *)
(*  opencv  pinhole with radial and tangential distortion; the pose is a   *)
(*          fixtured camera's                                              *)
(*  pix4d   pinhole with the same polynomial, focal length and principal   *)
(*          point in millimetres of sensor width                           *)
(*  rpc     ratio of 20-term cubics in normalised coordinates (RPC00B)     *)
(*  geot    inverse of an affine geotransform; altitude does not matter    *)
(*                                                                         *)
(* A camera as described by a case is turned once into a record of derived *)
(* parameters by Prepare; Px(cam, p) images the world point p = <<x,y,z>>. *)
(***************************************************************************)
EXTENDS Fixture

\* camera-frame coordinates of p, divided by depth
InCamera(pos, M, p) == MVec(M, VSub(p, pos) \o <<>>)
Slopes(pos, M, p) == LET q == InCamera(pos, M, p) \o <<>> IN <<RShort(RDiv(q[1], q[3])), RShort(RDiv(q[2], q[3]))>>

\* ---- collinearity: focal plane position (metres) of p
Plane(cam, p) ==
  LET s == Slopes(cam.pos, cam.M, p) IN <<RNeg(RMul(cam.f, s[1])), RNeg(RMul(cam.f, s[2]))>>
\* ---- focal plane array: pixel of a focal plane position
Sign(flip) == IF flip THEN -1 ELSE 1
OnArray(cam, xy) ==
  << RDiv(RAdd(RMul(Sign(cam.flipx), xy[1]), RDiv(RMul(cam.nx, cam.ppx), 2)), cam.ppx),
     RDiv(RAdd(RMul(Sign(cam.flipy), xy[2]), RDiv(RMul(cam.ny, cam.ppy), 2)), cam.ppy) >>

\* ---- radial (k) and tangential (p1, p2) distortion of normalised coordinates
Distort(d, s) ==
  LET r2  == RAdd(RSq(s[1]), RSq(s[2]))
      rad == RAdd(1, RMul(r2, RAdd(d.k1, RMul(r2, RAdd(d.k2, RMul(r2, d.k3))))))
      xy  == RMul(s[1], s[2])
  IN << RAdd(RMul(s[1], rad), RAdd(RMul(RMul(2, d.p1), xy), RMul(d.p2, RAdd(r2, RMul(2, RSq(s[1])))))),
        RAdd(RMul(s[2], rad), RAdd(RMul(d.p1, RAdd(r2, RMul(2, RSq(s[2])))), RMul(RMul(2, d.p2), xy))) >>

OpenCvPx(cam, p) ==
  LET q == Distort(cam, Slopes(cam.pos, cam.M, p))
  IN << RAdd(RMul(cam.fx, q[1]), cam.cx), RAdd(RNeg(RMul(cam.fy, q[2])), cam.cy) >>
Pix4dPx(cam, p) ==
  LET s == Slopes(cam.pos, cam.M, p)
      q == IF cam.model = "regular" THEN Distort(cam, s) ELSE s
  IN << RAdd(RMul(IF cam.revx THEN cam.fpix ELSE RNeg(cam.fpix), q[1]), cam.px),
        RAdd(RMul(IF cam.revy THEN cam.fpix ELSE RNeg(cam.fpix), q[2]), cam.py) >>

\* ---- RPC00B (STDI-0002): P = latitude, L = longitude, H = height, normalised
RpcTerms(L, P, H) ==
  << 1, L, P, H, RMul(L, P), RMul(L, H), RMul(P, H), RSq(L), RSq(P), RSq(H),
     RMul(P, RMul(L, H)), RMul(L, RSq(L)), RMul(L, RSq(P)), RMul(L, RSq(H)), RMul(RSq(L), P),
     RMul(P, RSq(P)), RMul(P, RSq(H)), RMul(RSq(L), H), RMul(RSq(P), H), RMul(H, RSq(H)) >>
Norm(v, off, scale) == RDiv(RSub(v, off), scale)
RpcPx(cam, p) ==
  LET t == RpcTerms(Norm(p[1], cam.lonoff, cam.lonscale), Norm(p[2], cam.latoff, cam.latscale),
                    Norm(p[3], cam.hoff, cam.hscale))
      Q(num, den, scale, off) == RAdd(RAdd(RMul(RDiv(RDot(num, t), RDot(den, t)), scale), off), "1/2")
  IN << Q(cam.sn, cam.sd, cam.sscale, cam.soff), Q(cam.ln, cam.ld, cam.lscale, cam.loff) >>

\* ---- affine georeference g = <<x0, a, b, y0, c, d>>
GeoWorld(g, px) == << RAdd(g[1], RAdd(RMul(px[1], g[2]), RMul(px[2], g[3]))),
                      RAdd(g[4], RAdd(RMul(px[1], g[5]), RMul(px[2], g[6]))) >>
GeoDet(g) == RSub(RMul(g[2], g[6]), RMul(g[3], g[5]))
GeoPx(g, p) ==
  LET dx == RSub(p[1], g[1])
      dy == RSub(p[2], g[4])
      k  == GeoDet(g)
  IN << RDiv(RSub(RMul(g[6], dx), RMul(g[3], dy)), k), RDiv(RSub(RMul(g[2], dy), RMul(g[5], dx)), k) >>

Px(cam, p) ==
  CASE cam.k = "fpa"    -> OnArray(cam, Plane(cam, p))
    [] cam.k = "opencv" -> OpenCvPx(cam, p)
    [] cam.k = "pix4d"  -> Pix4dPx(cam, p)
    [] cam.k = "rpc"    -> RpcPx(cam, p)
    [] cam.k = "geot"   -> GeoPx(cam.g, p)

\* ---- derived parameters from the parameters given by the caller
ShortM(M) == <<[j \in 1..3 |-> RShort(M[1][j])] \o <<>>, [j \in 1..3 |-> RShort(M[2][j])] \o <<>>, [j \in 1..3 |-> RShort(M[3][j])] \o <<>> >>
ShortV(v) == <<RShort(v[1]), RShort(v[2]), RShort(v[3])>>
Prepare(c) ==
  CASE c.k = "fpa" ->
         [k |-> "fpa", pos |-> <<c.x, c.y, ToMetres(c.z, c.zu)>>, M |-> ShortM(RotT("rpy", c.t)), f |-> ToMetres(c.f, c.fu),
          ppx |-> ToMetres(c.ppx, c.ppxu), ppy |-> ToMetres(c.ppy, c.ppyu), nx |-> c.nx, ny |-> c.ny,
          flipx |-> c.flipx, flipy |-> c.flipy]
    [] c.k = "opencv" ->
         LET s == SetBore(SetArm(SetAtt(SetPos(Empty, c.xyz), RotT("rpy", c.t)), c.arm, <<"m", "m", "m">>), RotT("rpy", c.bt))
         IN [k |-> "opencv", pos |-> ShortV(CameraXyz(s)), M |-> ShortM(CameraM(s)), fx |-> c.fx, fy |-> c.fy, cx |-> c.cx, cy |-> c.cy,
             k1 |-> c.k1, k2 |-> c.k2, k3 |-> c.k3, p1 |-> c.p1, p2 |-> c.p2]
    [] c.k = "pix4d" ->
         LET mm == RDiv(c.nx, c.fpaw)
         IN [k |-> "pix4d", pos |-> c.xyz, M |-> ShortM(MatOf(c.m, 3, 3)), fpix |-> RMul(c.f, mm), px |-> RMul(c.px, mm),
             py |-> RMul(c.py, mm), model |-> c.model, revx |-> c.revx, revy |-> c.revy,
             k1 |-> c.rd[1], k2 |-> c.rd[2], k3 |-> c.rd[3], p1 |-> c.td[1], p2 |-> c.td[2]]
    [] c.k = "rpc" -> c
    [] c.k = "geot" -> [k |-> "geot", g |-> c.g]

\* ---- the local UTM zone of a position in degrees
UtmZone(lon, lat) == [zone |-> RAdd(RFloor(RDiv(RAdd(lon, 180), 6)), 1), south |-> RLt(lat, 0)]
===========================================================================
