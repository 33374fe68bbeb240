--------------------------- MODULE Simulator_MC ----------------------------
(***************************************************************************)
(* A body and up to MaxPictures poses over a small grid of exact angles.   *)
(* Every ground point is imaged at the pixel it was found for; without     *)
(* boresight the picture is the platform camera's; neighbouring pixels see *)
(* different ground; the picture does not depend on earlier ones.          *)
(***************************************************************************)
EXTENDS Simulator, TLC, Json, FiniteSets
CONSTANTS Angles, Bores, Ords, MaxPictures
VARIABLES body, poses
vars == <<body, poses>>
Body(bt, o) == [bt |-> bt, order |-> o, f |-> 50, fu |-> "mm", ppx |-> 50, ppy |-> 40, ppu |-> "um", nx |-> 6, ny |-> 4]
Pose(t) == [xyz |-> <<40, -30, 1000>>, zu |-> "meters", t |-> t]
Init == /\ body \in {Body(<<a, b, c>>, o) : a \in Bores, b \in Bores, c \in Bores, o \in Ords}
        /\ poses = <<>>
Take == /\ Len(poses) < MaxPictures
        /\ \E a, b, c \in Angles : poses' = Append(poses, <<a, b, c>>)
        /\ UNCHANGED body
Next == Take
Spec == Init /\ [][Next]_vars
Pixels == {<<0, 0>>, <<5, 0>>, <<0, 3>>, <<5, 3>>, <<2, 1>>}
Last == SimCam(body, Pose(poses[Len(poses)]))
\* shortened numbers: within a billionth
Returns == Len(poses) > 0 => LET cam == Last IN \A q \in Pixels : LET p == Px(cam, MeetsPlane(cam, q, 0))
             IN RClose(p[1], q[1], "1/100000000") /\ RClose(p[2], q[2], "1/100000000")
Distinct == Len(poses) > 0 => LET cam == Last IN Cardinality({MeetsPlane(cam, q, 0) : q \in Pixels}) = Cardinality(Pixels)
Looks == Len(poses) > 0 => LET cam == Last IN \A q \in Pixels : MeetsPlane(cam, q, 0)[3] = 0
IsPlatform == (Len(poses) > 0 /\ \A k \in 1..3 : REq(body.bt[k], 0)) => LET cam == Last IN \A k \in 1..3 : CloseSeq(cam.M[k], RotT("rpy", poses[Len(poses)])[k], "1/1000000000")
Emit == Len(poses) = MaxPictures => PrintT("@@BEH " \o ToJson([bt |-> body.bt, order |-> body.order, poses |-> poses]))
===========================================================================
