------------------------------- MODULE Crs_MC -------------------------------
(* A position walks over a lattice of the globe: the zones tile it, the      *)
(* transverse Mercator of its zone is symmetric, conformal and as long along *)
(* the meridian as it should be, and the functions satisfy their equations.  *)
EXTENDS Crs, TLC, Json
CONSTANTS Step, MaxSteps
VARIABLES lon, lat, n
vars == <<lon, lat, n>>
Lats == {-80, -79, -65, -33, -1, 0, 1, 20, 55, 56, 60, 63, 64, 71, 72, 75, 83}
Init == lon = -180 /\ lat \in Lats /\ n = 0
East == n < MaxSteps /\ lon' = lon + Step /\ lat' = lat /\ n' = n + 1
Next == East
Spec == Init /\ [][Next]_vars

Z == Zone(lon, lat)
TheZoneIsNear == LET m == Meridian(Z) IN \/ lon - m \in -3..2 \/ (lat >= 56 /\ lon - m \in -9..8) \/ (lon = 180 /\ Z = 1)
WestEndsMeet == Zone(180, lat) = Zone(-180, lat)
ZonesAreWhole == \A d \in {"1/7", "9/10"} : LET q == RAdd(lon, d) IN (Step = 1 /\ lon < 180) => Zone(q, lat) = Z
Tiny == "1/1000000000000"
E0 == Utm(Z, South(lat), <<lon, lat>>)
Near == lon # 180
East0 == LET m == Meridian(Z) IN Utm(Z, South(lat), <<(2 * m) - lon, lat>>)
SymmetricAboutItsMeridian == Near => /\ RClose(RAdd(E0[1], East0[1]), 1000000, Tiny) /\ RClose(E0[2], East0[2], Tiny)
SymmetricAboutTheEquator == Near => LET q == Utm(Z, ~ South(lat), <<lon, -lat>>) IN RClose(q[1], E0[1], Tiny) /\ RClose(RAdd(q[2], E0[2]), 10000000, Tiny)
\* conformal: a small step east and the same true length north are at right angles and equally long
D == "1/100000"
Conformal == (Near /\ lat # 83) =>
   LET s2 == RSq(Sin(Rad(lat)))  e2 == RSq(Ecc)
       w == RSub(1, RMul(e2, s2))
       mer == RDiv(RSub(1, e2), w)                 \* meridian radius over the transverse one
       dn == D  de == RDiv(RMul(D, mer), Cos(Rad(lat)))
       a == Utm(Z, South(lat), <<RAdd(lon, de), lat>>)  b == Utm(Z, South(lat), <<RSub(lon, de), lat>>)
       c == Utm(Z, South(lat), <<lon, RAdd(lat, dn)>>)  g == Utm(Z, South(lat), <<lon, RSub(lat, dn)>>)
       x1 == RSub(a[1], b[1])  y1 == RSub(a[2], b[2])  x2 == RSub(c[1], g[1])  y2 == RSub(c[2], g[2])
   IN RClose(x1, y2, "1/1000000000") /\ RClose(y1, RNeg(x2), "1/1000000000")
Equations == \A k \in 1..3 : LET x == <<"1/3", 1, "7/5">>[k] IN RClose(RAdd(RSq(Sin(x)), RSq(Cos(x))), 1, Tiny) /\ RClose(Atan(RDiv(Sin(x), Cos(x))), x, Tiny)
ASSUME /\ RClose(RMul(4, Atan(1)), Pi, "1/100000000000000000000") /\ RClose(Ln(2), Ln2, "1/100000000000000000000") /\ RClose(Ln(10), "2302585092994045684017991/1000000000000000000000000", "1/10000000000000000000")
       /\ RClose(ExpSmall("1/100"), RDiv(1, ExpSmall("-1/100")), "1/10000000000000000000000") /\ RClose(Ln(ExpSmall("1/50")), "1/50", "1/10000000000000000000000")
       /\ RClose(RMul(RMul(Radius, Pi), "1/2"), "10001965729230/1000000", "1/1000")      \* a quarter of the meridian
       /\ Equations
Emit == PrintT("@@BEH " \o ToJson([lon |-> lon, lat |-> lat]))
=============================================================================
