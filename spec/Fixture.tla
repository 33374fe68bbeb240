----------------------------- MODULE Fixture -----------------------------
(***************************************************************************)
(* A camera bolted to a fixture.  State: fixture position and rotation,    *)
(* lever arm (camera position in fixture axes) and boresight (rotation of  *)
(* the camera relative to the fixture); each is unset or holds the value   *)
(* of the last call that set it.  The pose of the camera is derived.       *)
(***************************************************************************)
EXTENDS Rotation, Units
Unset == <<>>
Empty == [pos |-> Unset, att |-> Unset, arm |-> Unset, bore |-> Unset]

SetPos(s, xyz)      == [s EXCEPT !.pos = xyz]
SetAtt(s, m)        == [s EXCEPT !.att = m]
SetArm(s, xyz, u)   == [s EXCEPT !.arm = [i \in 1..3 |-> ToMetres(xyz[i], u[i])]]
SetBore(s, m)       == [s EXCEPT !.bore = m]

HasPos(s)   == s.pos # Unset
HasXyz(s)   == s.pos # Unset /\ s.att # Unset /\ s.arm # Unset
HasM(s)     == s.att # Unset /\ s.bore # Unset
\* world-to-fixture rotations act on columns, so the lever arm goes to the world by the transpose
CameraXyz(s) == VAdd(s.pos, MVec(Transpose(s.att), s.arm))
CameraM(s)   == MMul(s.bore, s.att)
==========================================================================
