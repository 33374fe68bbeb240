-------------------------- MODULE SensorModel_MC --------------------------
(* All histories of up to Depth assemblies; ghost w[k] is the calculator   *)
(* last put at band k.                                                     *)
EXTENDS SensorModel, TLC, Json, FiniteSets
CONSTANTS Depth, Ids
VARIABLES s, w, hist
vars == <<s, w, hist>>
Init == s = <<>> /\ w = <<>> /\ hist = <<>>
Log(a) == hist' = Append(hist, a)
Set == /\ \E n \in 1..2 : \E ids \in [1..n -> Ids] :
            /\ s' = SetCalcs(s, ids)
            /\ w' = [k \in 1..n |-> ids[k]]
            /\ Log([a |-> "set", ids |-> ids])
Add == \E id \in Ids : /\ Len(s) < 4 /\ s' = AddCalc(s, id) /\ w' = w \o <<id>> /\ Log([a |-> "add", id |-> id])
Upd == \E k \in 1..Len(s), id \in Ids : /\ s' = UpdCalc(s, k, id) /\ w' = [w EXCEPT ![k] = id] /\ Log([a |-> "upd", k |-> k, id |-> id])
Next == Len(hist) < Depth /\ (Set \/ Add \/ Upd)
Spec == Init /\ [][Next]_vars
OwnCalculator == Len(s) = Len(w) /\ \A k \in 1..Len(s) : Answers(s, k) = w[k]
OneBandChanges == [][hist'[Len(hist')].a = "upd" => \A k \in 1..Len(s) : k # hist'[Len(hist')].k => s'[k] = s[k]]_vars
AddKeeps == [][hist'[Len(hist')].a = "add" => SubSeq(s', 1, Len(s)) = s]_vars
Emit == Len(hist) = Depth => PrintT("@@BEH " \o ToJson(hist))
===========================================================================
