----------------------------- MODULE Rotation -----------------------------
(***************************************************************************)
(* Attitude.  An angle is a point <<c, s>> of the rational unit circle;    *)
(* HalfTan(t) is the angle whose half has tangent t, so every rational t   *)
(* gives an exact angle and these are dense in the circle.                 *)
(*                                                                         *)
(* Rotations are world-to-camera (passive): roll about x, pitch about y,   *)
(* yaw about z, the letters of an order being applied from first to last.  *)
(***************************************************************************)
EXTENDS Lin

HalfTan(t) == LET q == RAdd(1, RSq(t)) IN <<RDiv(RSub(1, RSq(t)), q), RDiv(RMul(2, t), q)>>
Zero == <<1, 0>>

Rx(a) == <<<<1, 0, 0>>, <<0, a[1], a[2]>>, <<0, RNeg(a[2]), a[1]>>>>
Ry(a) == <<<<a[1], 0, RNeg(a[2])>>, <<0, 1, 0>>, <<a[2], 0, a[1]>>>>
Rz(a) == <<<<a[1], a[2], 0>>, <<RNeg(a[2]), a[1], 0>>, <<0, 0, 1>>>>

Orders == {"rpy", "ryp", "pry", "pyr", "yrp", "ypr"}
Letters(order) ==
  CASE order = "rpy" -> <<"r", "p", "y">> [] order = "ryp" -> <<"r", "y", "p">>
    [] order = "pry" -> <<"p", "r", "y">> [] order = "pyr" -> <<"p", "y", "r">>
    [] order = "yrp" -> <<"y", "r", "p">> [] order = "ypr" -> <<"y", "p", "r">>
Elem(letter, roll, pitch, yaw) ==
  CASE letter = "r" -> Rx(roll) [] letter = "p" -> Ry(pitch) [] letter = "y" -> Rz(yaw)

Rot(order, roll, pitch, yaw) ==
  LET L == Letters(order)
  IN  MMul(Elem(L[3], roll, pitch, yaw), MMul(Elem(L[2], roll, pitch, yaw), Elem(L[1], roll, pitch, yaw)))
RotT(order, t) == Rot(order, HalfTan(t[1]), HalfTan(t[2]), HalfTan(t[3]))

Orthonormal(m, tol) == NearMat(MMul(m, Transpose(m)), Ident(3), tol)
ProperRotation(m, tol) == Orthonormal(m, tol) /\ RClose(Det3(m), 1, tol)

\* Moffitt & Mikhail, Photogrammetry, A-21: the roll-pitch-yaw matrix in closed form
A21(w, p, k) ==
  << << RMul(p[1], k[1]),
        RAdd(RMul(w[1], k[2]), RMul(RMul(w[2], p[2]), k[1])),
        RSub(RMul(w[2], k[2]), RMul(RMul(w[1], p[2]), k[1])) >>,
     << RNeg(RMul(p[1], k[2])),
        RSub(RMul(w[1], k[1]), RMul(RMul(w[2], p[2]), k[2])),
        RAdd(RMul(w[2], k[1]), RMul(RMul(w[1], p[2]), k[2])) >>,
     << p[2], RNeg(RMul(w[2], p[1])), RMul(w[1], p[1]) >> >>
===========================================================================
