---------------------------- MODULE Fixture_MC ----------------------------
(***************************************************************************)
(* All orders of up to Depth setter calls.  Every call gives a fresh value *)
(* (number n); ghost g remembers only, per part, the number of the last    *)
(* call on it, and the state must be a function of g.                      *)
(***************************************************************************)
EXTENDS Fixture, TLC, Json
CONSTANT Depth
VARIABLES s, n, g, hist
vars == <<s, n, g, hist>>

V(k)   == <<k, 2 * k + 1, -k>>
T(k)   == <<RDiv(k, 3), RDiv(1, k), RNeg(RDiv(k, 5))>>
M(k)   == RotT("rpy", T(k))
M2(k)  == RotT("ypr", T(k))
U(k)   == IF k % 2 = 0 THEN <<"meters", "feet", "mm">> ELSE <<"cm", "meters", "inches">>
ArmM(k) == [i \in 1..3 |-> ToMetres(V(k)[i], U(k)[i])]

Init == s = Empty /\ n = 1 /\ g = [pos |-> 0, att |-> 0, arm |-> 0, bore |-> 0] /\ hist = <<>>
Step(op, part, s2) ==
  /\ Len(hist) < Depth
  /\ s' = s2
  /\ n' = n + 1
  /\ g' = [g EXCEPT ![part] = n]
  /\ hist' = Append(hist, [op |-> op, n |-> n])
Next == \/ Step("pos", "pos", SetPos(s, V(n)))
        \/ Step("att", "att", SetAtt(s, M(n)))
        \/ Step("attrpy", "att", SetAtt(s, M(n)))
        \/ Step("arm", "arm", SetArm(s, V(n), U(n)))
        \/ Step("bore", "bore", SetBore(s, M2(n)))
        \/ Step("borerpy", "bore", SetBore(s, M2(n)))
Spec == Init /\ [][Next]_vars

LastOfEach ==
  /\ (s.pos = Unset) = (g.pos = 0) /\ (s.att = Unset) = (g.att = 0)
  /\ (s.arm = Unset) = (g.arm = 0) /\ (s.bore = Unset) = (g.bore = 0)
  /\ g.pos # 0 => SameSeq(s.pos, V(g.pos))
  /\ g.att # 0 => EqMat(s.att, M(g.att))
  /\ g.arm # 0 => SameSeq(s.arm, ArmM(g.arm))
  /\ g.bore # 0 => EqMat(s.bore, M2(g.bore))
\* the derived pose is rigid: rotation proper, lever arm length kept, and the camera sees its fixture at minus the arm
Rigid ==
  /\ HasM(s) => EqMat(MMul(CameraM(s), Transpose(CameraM(s))), Ident(3)) /\ REq(Det3(CameraM(s)), 1)
  /\ HasXyz(s) => LET d == VSub(CameraXyz(s), s.pos)
                  IN REq(RDot(d, d), RDot(s.arm, s.arm)) /\ SameSeq(MVec(s.att, d), s.arm)
Emit == Len(hist) = Depth => PrintT("@@BEH " \o ToJson(hist))
===========================================================================
