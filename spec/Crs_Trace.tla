------------------------------ MODULE Crs_Trace ------------------------------
(***************************************************************************)
(* Judges recorded uses of the reference-system helpers against Crs.       *)
(*                                                                         *)
(* zone:    the local projection of a position, told by where it puts the  *)
(*          positions e.q                                                  *)
(* wkt:     a projection from its text, told by where it puts e.q; known   *)
(*          systems against Crs, others (s.k = "other") against e.want     *)
(* spatial: what the spatial reference of a text says about itself         *)
(* convert: a geometry in another system: parts of points e.a in e.src and *)
(*          e.b in e.dst; e.q their positions in degrees                   *)
(* shift:   points moved by metres on the web-mercator plane               *)
(* bounds:  the rectangle between four numbers                             *)
(* crop:    a picture cut out along its cells by GDAL                      *)
(***************************************************************************)
EXTENDS Crs, Judge
TInit(case) == [none |-> TRUE]
TolOf(s) == IF s.k = "deg" THEN "1/10000000000" ELSE "1/100000"
At(s, q, p) == LET f == Forward(s, q) IN RFin(p[1]) /\ RFin(p[2]) /\ RClose(p[1], f[1], TolOf(s)) /\ RClose(p[2], f[2], TolOf(s))
AllAt(s, q, p) == Len(q) = Len(p) /\ \A k \in 1..Len(q) : At(s, q[k], p[k])
SameNum(a, b) == IF RFin(a) /\ RFin(b) THEN REq(a, b) ELSE (~ RFin(a) /\ ~ RFin(b) /\ a = b)
Lens(parts) == [k \in 1..Len(parts) |-> Len(parts[k])] \o <<>>
Cut(e) ==       \* the value at each cell of the cut-out, row by row
  [k \in 1..(e.nx * e.ny) |-> LET x == e.x0 + ((k - 1) % e.nx)  y == e.y0 + ((k - 1) \div e.nx)
                              IN IF x < 0 \/ y < 0 \/ x >= e.sx \/ y >= e.sy THEN <<>> ELSE <<(y * e.sx) + x + 1>>] \o <<>>

TStep(case, st, e) ==
  [st |-> st,
   ck |->
    IF e.err # "" THEN [no_error |-> FALSE]
    ELSE
    CASE e.op = "zone" -> [local_zone_of_the_position |-> AllAt(Local(e.lon, e.lat), e.q, e.v)]
      [] e.op = "wkt" -> [puts_positions_where_the_text_says |-> IF e.s.k = "other" THEN Len(e.v) = Len(e.want) /\ \A k \in 1..Len(e.v) : RNear(e.v[k][1], e.want[k][1], "1/10000000000") /\ RNear(e.v[k][2], e.want[k][2], "1/10000000000")
                                                            ELSE AllAt(e.s, e.q, e.v)]
      [] e.op = "spatial" -> [says_what_the_text_says |-> e.utm = (IF e.s.k = "utm" THEN (IF e.s.south THEN -e.s.zone ELSE e.s.zone) ELSE 0) /\ e.geographic = (e.s.k = "deg")]
      [] e.op = "convert" ->
           [same_kind |-> e.okind = e.kind,
            same_parts |-> Lens(e.a) = Lens(e.b) /\ Lens(e.a) = Lens(e.q),
            every_vertex_at_its_place |-> Lens(e.a) = Lens(e.b) =>
               \A k \in 1..Len(e.a) : AllAt(e.src, e.q[k], e.a[k]) /\ AllAt(e.dst, e.q[k], e.b[k]),
            source_untouched |-> e.kept]
      [] e.op = "shift" ->
           [a_point_each |-> Len(e.b) = Len(e.a) /\ e.osh = e.sh,
            moved_by_the_metres |-> Len(e.b) = Len(e.a) => \A k \in 1..Len(e.a) :
               /\ At(e.src, e.q[k], e.a[k]) /\ At(e.src, e.r[k], e.b[k])
               /\ LET m == Merc(e.q[k])  w == Merc(e.r[k]) IN RClose(w[1], RAdd(m[1], e.east), "1/50000") /\ RClose(w[2], RAdd(m[2], e.north), "1/50000")]
      [] e.op = "bounds" ->
           [the_rectangle |-> Len(e.r) = 5 /\ e.r[1] = e.r[5]
              /\ {e.r[k] : k \in 1..4} = {<<e.b[1], e.b[3]>>, <<e.b[1], e.b[4]>>, <<e.b[2], e.b[3]>>, <<e.b[2], e.b[4]>>}
              /\ \A k \in 1..4 : e.r[k][1] = e.r[k + 1][1] \/ e.r[k][2] = e.r[k + 1][2]]
      [] e.op = "crop" ->
           [size_and_bands |-> e.osh = <<e.ny, e.nx, Len(e.src)>>, sample_type |-> e.odt = e.dt,
            cells_of_the_source |-> Len(e.v) = Len(e.src) /\ LET c == Cut(e) IN \A b \in 1..Len(e.v) : Len(e.v[b]) = Len(c)
               /\ \A k \in 1..Len(c) : SameNum(e.v[b][k], IF c[k] = <<>> THEN e.nodata ELSE e.src[b][c[k][1]]),
            placed_where_cut |-> \A k \in 1..6 : RNear(e.geot[k], e.want[k], "1/1000000000"),
            nodata_kept |-> SameNum(e.ond, e.nodata),
            in_the_same_system |-> \A k \in 1..Len(e.crs) : RNear(e.crs[k], e.wantcrs[k], "1/1000000000")]]
=============================================================================
