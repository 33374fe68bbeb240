---------------------------- MODULE PixFiles_MC ----------------------------
(***************************************************************************)
(* The three files written line by line for a few images and cameras, in   *)
(* any order of images, with blank lines; every number is different.       *)
(***************************************************************************)
EXTENDS PixFiles, FiniteSets, TLC, Json
CONSTANTS Images, Cameras, MaxBlank
VARIABLES f, todoC, todoE, cams, blank, order
vars == <<f, todoC, todoE, cams, blank, order>>
T == [kind |-> "title", key |-> "", cam |-> 0, v |-> <<>>]
B == [kind |-> "blank", key |-> "", cam |-> 0, v |-> <<>>]
R(key, cam, v) == [kind |-> "row", key |-> key, cam |-> cam, v |-> v]
Val(i, k, n) == [j \in 1..n |-> 1000 * i + 10 * k + j]
Name(i) == <<"a", "b", "c">>[i]
CamOf(i) == IF i > Cameras THEN 1 ELSE i
Block(i) == <<R(Name(i), CamOf(i), Val(i, 1, 2))>> \o [k \in 1..3 |-> R("", 0, Val(i, k + 1, 3))] \o <<R("", 0, Val(i, 5, 3)), R("", 0, Val(i, 6, 2)), R("", 0, Val(i, 7, 3))>>
            \o [k \in 1..3 |-> R("", 0, Val(i, 7 + k, 3))]
CamBlock(c) == <<[T EXCEPT !.kind = "start"], [T EXCEPT !.kind = "size", !.v = <<100 * c + 1, 100 * c + 2>>]>>
               \o [k \in 1..8 |-> R(<<"F", "Px", "Py", "K1", "K2", "K3", "T1", "T2">>[k], 0, <<100 * c + 2 + k>>)]
Init == /\ f = [ext |-> <<T>>, cal |-> [k \in 1..8 |-> T], int |-> <<>>]
        /\ todoC = 1..Images /\ todoE = 1..Images /\ cams = 0 /\ blank = 0 /\ order = <<>>
PutCal == \E i \in todoC : f' = [f EXCEPT !.cal = @ \o Block(i)] /\ todoC' = todoC \ {i} /\ order' = Append(order, i) /\ UNCHANGED <<todoE, cams, blank>>
PutExt == todoC = {} /\ \E i \in todoE : f' = [f EXCEPT !.ext = Append(@, R(Name(i), 0, Val(i, 20, 6)))] /\ todoE' = todoE \ {i} /\ UNCHANGED <<todoC, cams, blank, order>>
PutInt == todoC = {} /\ todoE = {} /\ cams < Cameras /\ f' = [f EXCEPT !.int = @ \o CamBlock(cams + 1)] /\ cams' = cams + 1 /\ UNCHANGED <<todoC, todoE, blank, order>>
PutBlank == /\ blank < MaxBlank /\ blank' = blank + 1
            /\ \/ todoC = {} /\ todoE = 1..Images /\ f' = [f EXCEPT !.cal = Append(@, B)]
               \/ todoC = {} /\ cams = 0 /\ f' = [f EXCEPT !.ext = Append(@, B)]
               \/ todoE = {} /\ f' = [f EXCEPT !.int = Append(@, B)]
            /\ UNCHANGED <<todoC, todoE, cams, order>>
Next == PutCal \/ PutExt \/ PutInt \/ PutBlank
Spec == Init /\ [][Next]_vars
Complete == todoC = {} /\ todoE = {} /\ cams = Cameras
EveryImageOnce == Complete => [i \in 1..Len(Master(f)) |-> Master(f)[i].cal.key] = [i \in 1..Images |-> Name(order[i])]
OwnNumbers == Complete => \A n \in 1..Images : LET i == order[n] m == Master(f)[n]
   IN /\ m.ext = Val(i, 20, 6) /\ m.cal.size = Val(i, 1, 2) /\ m.cal.k = Val(i, 2, 3) \o Val(i, 3, 3) \o Val(i, 4, 3) /\ m.cal.radial = Val(i, 5, 3)
      /\ m.cal.tangential = Val(i, 6, 2) /\ m.cal.t = Val(i, 7, 3) /\ m.cal.r = Val(i, 8, 3) \o Val(i, 9, 3) \o Val(i, 10, 3)
      /\ m.int.size = <<100 * CamOf(i) + 1, 100 * CamOf(i) + 2>> /\ KeyOf(m.int, "Px") = 100 * CamOf(i) + 4
Emit == Complete => PrintT("@@BEH " \o ToJson([f |-> f]))
============================================================================
