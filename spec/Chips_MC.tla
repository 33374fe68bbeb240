----------------------------- MODULE Chips_MC -----------------------------
(***************************************************************************)
(* Cutting, chip by chip, along one axis of every length up to MaxN, every *)
(* chip length and overlap: the chips stay inside, and when the last one   *)
(* is cut every pixel is covered and neighbours overlap as asked.          *)
(* Behaviours <<n, c, v>> are emitted for replay.                          *)
(***************************************************************************)
EXTENDS Chips, TLC, Json
CONSTANT MaxN
VARIABLES n, c, v, at, cut
vars == <<n, c, v, at, cut>>
Init == /\ n \in 1..MaxN /\ c \in 1..n /\ v \in 0..(c - 1)
        /\ at = 0 /\ cut = {}
Done == at = -1
\* cut at the present position, moved back to the end if need be; go on one step, or stop beyond the image
Next == /\ ~ Done
        /\ cut' = cut \cup {Min2(at, n - c)}
        /\ at' = IF at + (c - v) < n THEN at + (c - v) ELSE -1
        /\ UNCHANGED <<n, c, v>>
Spec == Init /\ [][Next]_vars
Inside == InsideAxis(cut, c, n)
\* what is cut so far reaches without gaps to the end of the latest chip
NoGap == \A i \in 0..(n - 1) : (\E s \in cut : i < s + c) => \E s \in cut : s <= i /\ i < s + c
Whole == Done => Covered(cut, c, n) /\ cut = Starts(n, c, v)
Shared == Done => Overlapping(cut, c, v)
Fitting == \A s \in -3..(n + 3) : LET f == Fit(s, c, n) IN 0 <= f /\ f + c <= n /\ ((0 <= s /\ s + c <= n) => f = s)
Emit == Done => PrintT("@@BEH " \o ToJson([n |-> n, c |-> c, v |-> v]))
===========================================================================
