-------------------------------- MODULE Crs ---------------------------------
(***************************************************************************)
(* Reference systems.                                                      *)
(*                                                                         *)
(*   [k |-> "deg"]                   longitude and latitude in degrees     *)
(*   [k |-> "merc"]                  web mercator                          *)
(*   [k |-> "utm", zone, south]      transverse Mercator of a UTM zone     *)
(*                                                                         *)
(* Forward(s, p) is where a position p = <<longitude, latitude>> lies in   *)
(* system s.  Transverse Mercator is Krueger's series to the sixth power   *)
(* of the third flattening of WGS 84 (errors below a nanometre in the zone *)
(* and well beyond).                                                       *)
(*                                                                         *)
(* Zone(lon, lat) is the UTM zone of a position, with the wider zones over *)
(* southern Norway and Svalbard.                                           *)
(***************************************************************************)
EXTENDS Trig

A == 6378137                           \* semi-major axis of WGS 84, metres
Flat == "1000000000/298257223563"      \* flattening
N1 == RShort(RDiv(Flat, RSub(2, Flat)))
Pow(x, k) == CASE k = 1 -> x [] k = 2 -> RMul(x, x) [] k = 3 -> RMul(x, RMul(x, x)) [] k = 4 -> RSq(RSq(x)) [] k = 5 -> RMul(x, RSq(RSq(x))) [] k = 6 -> RSq(RMul(x, RSq(x)))
PolyN(c) == RShort(RSum([k \in 1..6 |-> RMul(c[k], Pow(N1, k))] \o <<>>))
Ecc == RShort(RSqrt(RMul(Flat, RSub(2, Flat))))
Radius == RShort(RMul(RDiv(A, RAdd(1, N1)), RAdd(1, RAdd(RDiv(Pow(N1, 2), 4), RAdd(RDiv(Pow(N1, 4), 64), RDiv(Pow(N1, 6), 256))))))
Alphas == << PolyN(<<"1/2", "-2/3", "5/16", "41/180", "-127/288", "7891/37800">>),
             PolyN(<<0, "13/48", "-3/5", "557/1440", "281/630", "-1983433/1935360">>),
             PolyN(<<0, 0, "61/240", "-103/140", "15061/26880", "167603/181440">>),
             PolyN(<<0, 0, 0, "49561/161280", "-179/168", "6601661/7257600">>),
             PolyN(<<0, 0, 0, 0, "34729/80640", "-3418889/1995840">>),
             PolyN(<<0, 0, 0, 0, 0, "212378941/319334400">>) >>

\* ---- web mercator
Merc(p) == LET s == Sin(Rad(p[2])) IN << RMul(A, Rad(p[1])), RMul(A, Atanh(s)) >>

\* ---- transverse Mercator around longitude l0
Scale0 == "9996/10000"
RECURSIVE Tm(_, _, _, _, _, _, _)
\* adds the terms j..6 of the series; (s, c) and (sh, ch) belong to the double angles times j, d to the double angles
Tm(j, s, c, sh, ch, d, acc) ==
  IF j > 6 THEN acc
  ELSE Tm(j + 1, RShort(RAdd(RMul(s, d.c), RMul(c, d.s))), RShort(RSub(RMul(c, d.c), RMul(s, d.s))),
                 RShort(RAdd(RMul(sh, d.ch), RMul(ch, d.sh))), RShort(RAdd(RMul(ch, d.ch), RMul(sh, d.sh))), d,
                 << RAdd(acc[1], RMul(Alphas[j], RMul(s, ch))), RAdd(acc[2], RMul(Alphas[j], RMul(c, sh))) >>)
Transverse(l0, p) ==
  LET sp == Sin(Rad(p[2]))
      la == Rad(RSub(p[1], l0))
      es == RShort(RMul(Ecc, sp))
      E  == RShort(RMul(RSqrt(RShort(RDiv(RAdd(1, sp), RSub(1, sp)))), ExpSmall(RNeg(RMul(Ecc, Atanh(es))))))
      t  == RShort(RDiv(RSub(E, RDiv(1, E)), 2))          \* tangent of the conformal latitude
      T  == RShort(RDiv(t, Cos(la)))
      u  == RShort(RDiv(Sin(la), RSqrt(RShort(RAdd(1, RSq(t))))))
      T2 == RSq(T)  u2 == RSq(u)
      d  == [s |-> RShort(RDiv(RMul(2, T), RAdd(1, T2))), c |-> RShort(RDiv(RSub(1, T2), RAdd(1, T2))),
             sh |-> RShort(RDiv(RMul(2, u), RSub(1, u2))), ch |-> RShort(RDiv(RAdd(1, u2), RSub(1, u2)))]
      z  == Tm(1, d.s, d.c, d.sh, d.ch, d, << Atan(T), Atanh(u) >>)
      k  == RMul(Scale0, Radius)
  IN << RMul(k, z[2]), RMul(k, z[1]) >>
Meridian(zone) == (6 * zone) - 183
Utm(zone, south, p) == LET q == Transverse(Meridian(zone), p) IN << RAdd(500000, q[1]), RAdd(IF south THEN 10000000 ELSE 0, q[2]) >>

Forward(s, p) == CASE s.k = "deg" -> p [] s.k = "merc" -> Merc(p) [] s.k = "utm" -> Utm(s.zone, s.south, p)

\* ---- the zone of a position; longitudes -180..180, the last one being the first
Within(x, a, b) == RLe(a, x) /\ RLt(x, b)
Plain(lon) == (RFloor(RDiv(RAdd(lon, 180), 6)) % 60) + 1
Zone(lon, lat) ==
  IF Within(lat, 56, 64) /\ Within(lon, 3, 12) THEN 32
  ELSE IF Within(lat, 72, 85) /\ Within(lon, 0, 42)
       THEN IF RLt(lon, 9) THEN 31 ELSE IF RLt(lon, 21) THEN 33 ELSE IF RLt(lon, 33) THEN 35 ELSE 37
  ELSE Plain(lon)
South(lat) == RLt(lat, 0)
Local(lon, lat) == [k |-> "utm", zone |-> Zone(lon, lat), south |-> South(lat)]
=============================================================================
