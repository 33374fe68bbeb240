------------------------------ MODULE Dem_MC ------------------------------
(***************************************************************************)
(* A 3 x 2 raster whose heights come from a small set; missing values are  *)
(* marked, the method switched, heights converted between geoid and        *)
(* ellipsoid and another raster loaded in every order;                     *)
(* the value last marked as missing is marked in the new raster too.       *)
(* Queries on a grid of quarter pixels.                                    *)
(***************************************************************************)
EXTENDS Dem, TLC, Json
CONSTANTS Heights, Depth, Others
VARIABLES d, method, told, hist
vars == <<d, method, told, hist>>
NX == 3
NY == 2
Init == /\ \E v \in [1..(NX * NY) -> Heights] : d = [nx |-> NX, ny |-> NY, v |-> v]
        /\ method = "bilinear" /\ told = <<>>
        /\ hist = <<[a |-> "raster", v |-> d.v]>>
Go == Len(hist) <= Depth
Mark(n) == /\ Go /\ \E k \in 1..Len(d.v) : SameNum(d.v[k], n)
           /\ \E k \in 1..Len(d.v) : ~ SameNum(d.v[k], n) /\ ~ Missing(d.v[k])   \* something is left
           /\ d' = Remove(d, n) /\ told' = <<n>> /\ UNCHANGED method /\ hist' = Append(hist, [a |-> "remove", v |-> <<n>>])
Switch(m) == /\ Go /\ method # m /\ method' = m /\ UNCHANGED <<d, told>> /\ hist' = Append(hist, [a |-> m, v |-> <<>>])
\* the k-th other raster: one cell, or all but one, is another height
Other(k) == LET a == CHOOSE x \in Heights : TRUE  b == CHOOSE x \in Heights : x # a
            IN [nx |-> NX, ny |-> NY, v |-> [c \in 1..(NX * NY) |-> IF (c = k) THEN a ELSE b]]
Load(k) == /\ Go /\ d' = MarkTold(Other(k), told) /\ UNCHANGED <<method, told>>
           /\ hist' = Append(hist, [a |-> "load", v |-> Other(k).v])
\* to the geoid or to the ellipsoid, once; no height becomes the value that means missing
Und == [k \in 1..(NX * NY) |-> 1 + (k % 2)]
Convert(dir) == /\ Go /\ \A k \in 1..Len(hist) : hist[k].a \notin {"geoid", "ellipsoid"}
                /\ d' = Shifted(d, Und, dir) /\ (told # <<>> => \A k \in 1..Len(d.v) : ~ SameNum(d'.v[k], told[1]))
                /\ UNCHANGED <<method, told>> /\ hist' = Append(hist, [a |-> dir, v |-> <<>>])
Next == (\E dir \in {"geoid", "ellipsoid"} : Convert(dir)) \/ (\E k \in Others : Load(k)) \/ (\E n \in Heights : Mark(n)) \/ (\E m \in {"nearest", "bilinear"} : Switch(m))
Spec == Init /\ [][Next]_vars

\* three steps reach no raster that two do not: the laws are evaluated before the last step
Points == IF Len(hist) > Depth /\ Depth > 2 THEN {} ELSE (0..(4 * NX)) \X (0..(4 * NY))
At(q) == <<RDiv(q[1], 4), RDiv(q[2], 4)>>
Height(p) == IF method = "nearest" THEN Nearest(d, p) ELSE Bilinear(d, p)
\* a bilinear value lies in the range of its samples, and is the sample at a sample point
InRange == \A q \in Points : LET p == At(q)  cs == Corners(d, p)  z == Bilinear(d, p)
             IN ~ Missing(z) => /\ \E k \in Used(cs, 0) : RLe(cs[k].h, z)
                             /\ \E k \in Used(cs, 0) : RLe(z, cs[k].h)
AtSamples == \A i \in 0..(NX - 1), j \in 0..(NY - 1) : SameNum(Bilinear(d, <<i, j>>), Cell(d, i, j))
WeightsSum == \A q \in Points : LET p == At(q) IN REq(RSum([k \in 1..4 |-> Corners(d, p)[k].w]), 1)
NearestIsACell == \A q \in Points : LET p == At(q) IN \E k \in 1..Len(d.v) : SameNum(Nearest(d, p), d.v[k])
InExtremes == \A q \in Points : LET p == At(q) IN ~ Missing(Height(p)) => RLe(Lowest(d), Height(p)) /\ RLe(Height(p), Highest(d))
\* a missing cell has no say where it carries no weight
Local == \A i \in 0..(NX - 1), j \in 0..(NY - 1) : ~ Missing(Cell(d, i, j)) => RFin(Height(<<i, j>>))
\* the observation predicates accept the value they describe
PredsAccept == \A q \in Points : LET p == At(q) IN IsNearest(d, p, Nearest(d, p), "1/1000000") /\ IsBilinear(d, p, Bilinear(d, p), "1/1000000", 10)
\* and reject the neighbour's height in the middle of a cell
PredsReject == \A i \in 0..(NX - 2), j \in 0..(NY - 1) :
   ~ SameNum(Cell(d, i, j), Cell(d, i + 1, j)) => ~ IsNearest(d, <<RAdd(i, "1/2"), RAdd(j, "1/2")>>, Cell(d, i + 1, j), "1/1000000")
\* and any height but the missing mark where a missing sample carries weight
PredsMissing == \A q \in Points : LET p == At(q) IN Missing(Bilinear(d, p)) => ~ IsBilinear(d, p, 0, "1/1000000", 10)
\* whatever was loaded after it, the value told last is never a height
ToldIsMissing == told # <<>> => \A k \in 1..Len(d.v) : ~ SameNum(d.v[k], told[1])
\* there and back again
Undone == \A dir \in {"geoid", "ellipsoid"} : LET u == Shifted(Shifted(d, Und, dir), Und, IF dir = "geoid" THEN "ellipsoid" ELSE "geoid")
          IN \A k \in 1..Len(d.v) : SameNum(u.v[k], d.v[k])
\* no cell appears or goes missing
MissingKept == \A k \in 1..Len(d.v) : Missing(Shifted(d, Und, "geoid").v[k]) <=> Missing(d.v[k])
Emit == Len(hist) = Depth + 1 => PrintT("@@BEH " \o ToJson(hist))
===========================================================================
