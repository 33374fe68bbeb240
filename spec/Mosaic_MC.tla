----------------------------- MODULE Mosaic_MC -----------------------------
(***************************************************************************)
(* Painting chips in ascending order of score, ties in any order: at every *)
(* moment each place shows the highest score painted over it, and the      *)
(* finished mosaic is the same whatever the listing and tie order.         *)
(***************************************************************************)
EXTENDS Chips, TLC, Json
CONSTANTS Rows, Cols, Scores, Chips0, CY, CX
VARIABLES uls, ss, img, left
vars == <<uls, ss, img, left>>
Places == (0..(Rows - 1)) \X (0..(Cols - 1))
Frame == (0..(Rows + CY - 2)) \X (0..(Cols + CX - 2))
Init == /\ uls \in [1..Chips0 -> Places] /\ ss \in [1..Chips0 -> Scores]
        /\ img = [p \in Frame |-> 0]
        /\ left = 1..Chips0
Next == \E i \in left :
          /\ \A j \in left : ss[i] <= ss[j]
          /\ img' = [p \in Frame |-> IF Over(uls[i], CY, CX, p[1], p[2]) THEN ss[i] ELSE img[p]]
          /\ left' = left \ {i}
          /\ UNCHANGED <<uls, ss>>
Spec == Init /\ [][Next]_vars
Painted == SelectSeq([i \in 1..Chips0 |-> i], LAMBDA i : i \notin left)
HighestPainted ==
  LET u == [k \in 1..Len(Painted) |-> uls[Painted[k]]]
      z == [k \in 1..Len(Painted) |-> ss[Painted[k]]]
  IN \A p \in Frame : img[p] = ShownAt(u, z, CY, CX, p[1], p[2])
OnlyFromListing == left = {} => \A p \in Frame : img[p] = ShownAt(uls, ss, CY, CX, p[1], p[2])
Emit == left = {} => PrintT("@@BEH " \o ToJson([uls |-> uls, ss |-> ss]))
===========================================================================
