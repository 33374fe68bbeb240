----------------------------- MODULE Library_MC -----------------------------
(***************************************************************************)
(* Files written line by line, header then data; header lines may look     *)
(* like data and data lines are all different.                             *)
(***************************************************************************)
EXTENDS Library, TLC, Json
CONSTANTS MaxHead, MaxRows
VARIABLES file, rows, phase
vars == <<file, rows, phase>>
Heads == {[start |-> "word", f |-> <<>>], [start |-> "num", f |-> <<7, 7, 7, 7>>], [start |-> "late data", f |-> <<>>]}
Row(i, n) == [start |-> "num", f |-> [k \in 1..n |-> 10 * i + k]]
Files == {[fmt |-> "csv", nheader |-> 0, wi |-> w, ri |-> r, lines |-> <<>>] : w, r \in 0..2} \cup
         {[fmt |-> f, nheader |-> 0, wi |-> 0, ri |-> 0, lines |-> <<>>] : f \in {"svc", "envi"}}
Init == /\ file \in {f \in Files : f.fmt # "csv" \/ f.wi # f.ri} /\ rows = 0 /\ phase = "head"
Head1 == /\ phase = "head" /\ Len(file.lines) < MaxHead
         /\ \E h \in Heads : file' = [file EXCEPT !.lines = Append(@, h), !.nheader = @ + 1]
         /\ UNCHANGED <<rows, phase>>
Begin == /\ phase = "head" /\ phase' = "rows" /\ (file.fmt = "envi" => Len(file.lines) = 3)
         /\ file' = IF file.fmt = "svc" THEN [file EXCEPT !.lines = Append(@, [start |-> "data", f |-> <<>>])] ELSE file
         /\ UNCHANGED rows
Row1 == /\ phase = "rows" /\ rows < MaxRows /\ rows' = rows + 1
        /\ file' = [file EXCEPT !.lines = Append(@, Row(rows + 1, IF file.fmt = "svc" THEN 4 ELSE IF file.fmt = "envi" THEN 2 ELSE 3))]
        /\ UNCHANGED phase
Next == Head1 \/ Begin \/ Row1
Spec == Init /\ [][Next]_vars
Done == phase = "rows"
EveryRowOnce == Done => Len(Read(file).waves) = rows /\ Len(Read(file).vals) = rows
InOrder == Done => \A i \in 1..rows : /\ REq(Read(file).waves[i], 10 * i + (IF file.fmt = "csv" THEN file.wi + 1 ELSE 1))
   /\ REq(Read(file).vals[i], IF file.fmt = "svc" THEN RDiv(10 * i + 4, 100) ELSE IF file.fmt = "csv" THEN 10 * i + file.ri + 1 ELSE 10 * i + 2)
Emit == (Done /\ rows > 0) => PrintT("@@BEH " \o ToJson([file |-> file]))
=============================================================================
