----------------------------- MODULE RayCast_MC -----------------------------
(***************************************************************************)
(* The sampling march over every 5 x 2 raster of a few heights, for rays   *)
(* of several directions and sampling distances.  One state per sample     *)
(* tried.  The final states satisfy the clauses recorded casts are judged  *)
(* by.                                                                     *)
(***************************************************************************)
EXTENDS RayCast, TLC, Json
CONSTANTS Heights, Steps
Ends == {<<0, 4>>, <<4, 1>>, <<2, 2>>, <<1, 3>>}
VARIABLES t, a, b, n, k, hit
vars == <<t, a, b, n, k, hit>>
Top == 7
Bottom == -1
None == <<>>
G == <<0, 1, 0, 0, 0, 1>>
Init == /\ \E v \in [1..5 -> Heights] : t = [k |-> "raster", g |-> G, method |-> "bilinear", d |-> [nx |-> 5, ny |-> 2, v |-> v \o v]]
        /\ \E e \in Ends : a = <<e[1], "1/2", Top>> /\ b = <<e[2], "1/2", Bottom>>
        /\ n \in Steps
        /\ k = 1 /\ hit = None
March == /\ hit = None /\ k <= n
         /\ LET under == RLt(0, Over(t, Sample(a, b, n, k)))
            IN /\ hit' = IF under THEN Crossing(t, a, b, n, k) ELSE None
               /\ k' = IF under THEN k ELSE k + 1
         /\ UNCHANGED <<t, a, b, n>>
Next == March
Spec == Init /\ [][Next]_vars

MaxSlope == LET v == t.d.v IN RMaxOf([i \in 1..4 |-> RAbs(RSub(v[i + 1], v[i]))])
D == RDiv(Horizontal(a, b), n)
Slack == RAdd("1/1000", RMul(MaxSlope, D))
AlwaysHits == k <= n
OnTheRay == hit # None => REq(RMul(RSub(hit[1], a[1]), RSub(b[3], a[3])), RMul(RSub(hit[3], a[3]), RSub(b[1], a[1])))
OnTerrain == hit # None => RClose(hit[3], Height(t, hit[1], hit[2]), Slack)
\* no stretch longer than a step lies under the terrain before the hit
M == 40
Parts == LET h == RDiv(Horizontal(hit, a), M) IN IF RLe(h, 0) THEN M ELSE RAdd(RFloor(RDiv(D, h)), 2)
First == (hit # None /\ ~ REq(a[1], b[1])) => ~ LongRun(t, hit, a, M, "1/1000", Parts)
\* where the ray is vertical the hit is the height below
Vertical == (hit # None /\ REq(a[1], b[1])) => REq(hit[3], Height(t, a[1], a[2]))
Emit == (hit # None /\ n = 4) => PrintT("@@BEH " \o ToJson([v |-> t.d.v, e |-> <<a[1], b[1]>>]))
===========================================================================
