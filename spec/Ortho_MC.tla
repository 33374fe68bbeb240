----------------------------- MODULE Ortho_MC -----------------------------
(***************************************************************************)
(* A source of W by H pixels over the ground under a unit georeference     *)
(* (possibly turned by a quarter and shifted), and every grid over         *)
(* rectangles with corners on half units.  Invariants: grid cells tile the *)
(* rectangle; a grid laid on the source's own samples reproduces it; a     *)
(* cell never shows a value the source does not have (order 0) or beyond   *)
(* its range (order 1); moving the ground rectangle and the source         *)
(* together changes nothing; the outline of the frame holds exactly the    *)
(* imaged points.                                                          *)
(***************************************************************************)
EXTENDS Ortho, TLC, Json
CONSTANTS W, H, MaxN
VARIABLES box, nx, ny, cam, moved
vars == <<box, nx, ny, cam, moved>>
Src == [nx |-> W, ny |-> H, v |-> [k \in 1..(W * H) |-> 10 * (RowOf(W, k) + 1) + ColOf(W, k)]]
Cams == { <<0, 1, 0, 0, 0, -1>>, <<0, 0, 1, 0, 1, 0>>, <<2, 2, 0, 1, 0, -2>>, <<1, 1, 1, 0, 1, -1>> }
Init == /\ \E x \in {-1, 2}, y \in {4, 5, 8}, w \in {1, 3, 4}, h \in {2, 3} :
             box = <<RDiv(x, 2), RDiv(-y, 2), RAdd(RDiv(x, 2), w), RAdd(RDiv(-y, 2), h)>>
        /\ nx \in 1..MaxN /\ ny \in 1..MaxN
        /\ cam \in Cams
        /\ moved = FALSE
Shift(g, d) == <<RAdd(g[1], d[1]), g[2], g[3], RAdd(g[4], d[2]), g[5], g[6]>>
D == <<"7/3", -5>>
Next == /\ ~ moved /\ moved' = TRUE
        /\ box' = <<RAdd(box[1], D[1]), RAdd(box[2], D[2]), RAdd(box[3], D[1]), RAdd(box[4], D[2])>>
        /\ cam' = Shift(cam, D) /\ UNCHANGED <<nx, ny>>
Spec == Init /\ [][Next]_vars
Geo == GridGeo(box, nx, ny)
Looks(c, b) == LET g == GridGeo(b, nx, ny) z == Centres(g, nx, ny) IN [k \in 1..(nx * ny) |-> GeoPx(c, z[k])]
Tiles == LET q == GridCorners(Geo, nx, ny)
         IN /\ SameSeq(q[1], <<box[1], box[4]>>) /\ SameSeq(q[3], <<box[3], box[2]>>)
            /\ SameSeq(q[2], <<box[3], box[4]>>) /\ SameSeq(q[4], <<box[1], box[2]>>)
CentresInside == \A k \in 1..(nx * ny) : LET p == Centres(Geo, nx, ny)[k] IN RLt(box[1], p[1]) /\ RLt(p[1], box[3]) /\ RLt(box[2], p[2]) /\ RLt(p[2], box[4])
CentresEven == \A k \in 1..(nx * ny - 1) : ColOf(nx, k) < nx - 1 => REq(RSub(Centres(Geo, nx, ny)[k + 1][1], Centres(Geo, nx, ny)[k][1]), Geo[2])
OwnGrid == \* the grid whose cell centres are the samples
  LET g == GridGeo(<<"-1/2", RSub("1/2", H), RSub(W, "1/2"), "1/2">>, W, H)
  IN \A k \in 1..(W * H) : LET p == GeoPx(<<0, 1, 0, 0, 0, -1>>, Centres(g, W, H)[k])
                           IN REq(NearestSample(Src, p), Src.v[k]) /\ REq(Bilinear(Src, p), Src.v[k])
Valued == \A k \in 1..(nx * ny) : LET p == Looks(cam, box)[k] b == Bilinear(Src, p)
                                  IN /\ \E m \in 1..(W * H) : REq(NearestSample(Src, p), Src.v[m])
                                     /\ RLe(10, b) /\ RLe(b, 10 * H + W - 1)
                                     /\ ~ (Outside(Src, p, 0) /\ Inside(Src, p, 0))

MovesAlong == moved => LET back == <<RSub(box[1], D[1]), RSub(box[2], D[2]), RSub(box[3], D[1]), RSub(box[4], D[2])>>
                 a == Looks(cam, box) b == Looks(Shift(cam, <<RNeg(D[1]), RNeg(D[2])>>), back)
             IN \A k \in 1..(nx * ny) : SameSeq(a[k], b[k])
Outline == << GeoWorld(cam, <<0, 0>>), GeoWorld(cam, <<W - 1, 0>>), GeoWorld(cam, <<W - 1, H - 1>>), GeoWorld(cam, <<0, H - 1>>) >>
OutlineIsFrame == /\ Convex(Outline)
                  /\ \A k \in 1..(nx * ny) : InOutline(Outline, Centres(Geo, nx, ny)[k]) <=> InFrame(W, H, Looks(cam, box)[k], 0)
Emit == ~ moved => PrintT("@@BEH " \o ToJson([box |-> box, nx |-> nx, ny |-> ny, cam |-> cam]))
===========================================================================
