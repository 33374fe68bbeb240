---------------------------- MODULE Spectrum_MC ----------------------------
(***************************************************************************)
(* Every short history of giving a spectrum values, wavelengths and nodata *)
(* values and of scribbling over what it returned, and resampling over     *)
(* small grids.                                                            *)
(***************************************************************************)
EXTENDS Spectrum, TLC, Json
CONSTANTS Depth, Vals, Bad
VARIABLES s, hist
vars == <<s, hist>>
Ops == {[op |-> "vals", v |-> <<a, b, c>>] : a, b, c \in Vals \cup {Bad}}
  \cup {[op |-> "waves", v |-> w] : w \in {<<1, 2, 4>>, <<4, 3, 1>>}}
  \cup {[op |-> "nodata", v |-> x] : x \in {<<Bad>>, <<7>>, <<>>}}
  \cup {[op |-> o, v |-> 0] : o \in {"scribble", "copy"}}
Init == s = Empty /\ hist = <<>>
Next == Len(hist) < Depth /\ \E e \in Ops : s' = Step(s, e) /\ hist' = Append(hist, e)
Spec == Init /\ [][Next]_vars
LastOf(o) == LET k == {i \in 1..Len(hist) : hist[i].op = o} IN IF k = {} THEN 0 ELSE CHOOSE i \in k : \A j \in k : j <= i
TheLastGiven == s.vals = (IF LastOf("vals") = 0 THEN <<>> ELSE hist[LastOf("vals")].v)
MarkedOnlyWhereNodata == \A i \in 1..Len(s.vals) : (~ RFin(Marked(s, TRUE)[i])) <=> (LastOf("nodata") > 0 /\ hist[LastOf("nodata")].v = <<s.vals[i]>>)
UnmarkedIsStored == Marked(s, FALSE) = s.vals
Whole == Len(s.vals) = 3 /\ Len(s.waves) = 3
Box == [waves |-> <<0, 5>>, vals |-> <<2, 2>>]
Left == [waves |-> <<0, 1, 2>>, vals |-> <<1, 1, 0>>]
\* a flat response gives the plain mean, any response keeps a constant spectrum, the mean lies among the values
FlatIsMean == Whole => REq(BandMean(s, Box), RDiv(Trapz(s.waves, s.vals, 3), Trapz(s.waves, <<1, 1, 1>>, 3)))
ConstantKept == Whole => \A b \in {Box, Left} : (REq(s.vals[1], s.vals[2]) /\ REq(s.vals[2], s.vals[3])) => REq(BandMean(s, b), s.vals[1])
MeanAmong == Whole => \A b \in {Box, Left} : \E i, j \in 1..3 : RLe(s.vals[i], BandMean(s, b)) /\ RLe(BandMean(s, b), s.vals[j])
Emit == (Len(hist) = Depth /\ LastOf("vals") > 0) => PrintT("@@BEH " \o ToJson([hist |-> hist]))
============================================================================
