--------------------------- MODULE Rotation_MC ---------------------------
(***************************************************************************)
(* Composition of elementary rotations, one letter at a time, over a grid  *)
(* of exact angles covering every quadrant and the quadrant boundaries.    *)
(* Checked: every partial product is a proper rotation; the complete       *)
(* roll-pitch-yaw product is equation A-21; the angles of an rpy matrix    *)
(* with pitch short of vertical are determined by five of its entries; the *)
(* quotient of two rotations turns the first into the second.              *)
(***************************************************************************)
EXTENDS Rotation, TLC, Json
CONSTANT Tans
VARIABLES order, t, k, m
vars == <<order, t, k, m>>
Init == /\ order \in Orders
        /\ t \in Tans \X Tans \X Tans
        /\ k = 0
        /\ m = Ident(3)
Next == /\ k < 3
        /\ k' = k + 1
        /\ m' = MMul(Elem(Letters(order)[k + 1], HalfTan(t[1]), HalfTan(t[2]), HalfTan(t[3])), m)
        /\ UNCHANGED <<order, t>>
Spec == Init /\ [][Next]_vars

Proper == EqMat(MMul(m, Transpose(m)), Ident(3)) /\ REq(Det3(m), 1)
A(i) == HalfTan(t[i])
ClosedForm == (k = 3 /\ order = "rpy") => EqMat(m, A21(A(1), A(2), A(3)))
Composed == k = 3 => EqMat(m, RotT(order, t))
\* cos(pitch) > 0: (c, s) of each angle follow from m31, m11, m21, m33, m32
Recoverable ==
  (k = 3 /\ order = "rpy" /\ RLt(0, A(2)[1])) =>
    /\ REq(m[3][1], A(2)[2])
    /\ SameSeq(<<RDiv(m[1][1], A(2)[1]), RDiv(RNeg(m[2][1]), A(2)[1])>>, A(3))
    /\ SameSeq(<<RDiv(m[3][3], A(2)[1]), RDiv(RNeg(m[3][2]), A(2)[1])>>, A(1))
Boresight == k = 3 => LET n == RotT("ypr", <<t[2], t[3], t[1]>>) IN EqMat(MMul(m, MMul(Transpose(m), n)), n)
Emit == k = 3 => PrintT("@@BEH " \o ToJson([order |-> order, t |-> t]))
===========================================================================
