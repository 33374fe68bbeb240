--------------------------- MODULE Spline_Trace ----------------------------
(***************************************************************************)
(* Judges pictures resampled with splines of order 2 to 5.  e.src: bumps   *)
(* on a ground (Spline.tla), w by h samples in all.                        *)
(*                                                                         *)
(* smooth: resampled at positions e.q, all inside                          *)
(* ortho:  orthorectified; e.cam the georeference of the source, e.geot    *)
(*         that of the product: nodata outside, either at the edge         *)
(***************************************************************************)
EXTENDS Spline, Judge
TInit(case) == <<>>
Tol(b) == RMul("1/50000", RAdd("1/100", RMax(RAbs(b.ground), RMax(RAbs(LowestOf(b)), RAbs(HighestOf(b))))))
Eps == "1/10000"
At(e, p, v) ==
  LET f == [nx |-> e.w, ny |-> e.h]
  IN IF Outside(f, p, Eps) THEN SameNum(v, e.nodata)
     ELSE SmoothOk(e.src, e.order, p, v, Tol(e.src)) \/ (~ Inside(f, p, Eps) /\ SameNum(v, e.nodata))
TStep(case, st, e) ==
  [st |-> st,
   ck |->
    IF e.err # "" THEN [no_error |-> FALSE]
    ELSE
    CASE e.op = "smooth" ->
           [a_value_per_position |-> Len(e.v) = Len(e.q),
            through_the_samples |-> Len(e.v) = Len(e.q) /\ \A k \in 1..Len(e.q) : At(e, e.q[k], e.v[k])]
      [] e.op = "ortho" ->
           LET z == Centres(e.geot, e.nx, e.ny) \o <<>>
           IN [size_as_told |-> e.osh = <<e.ny, e.nx, 1>> /\ Len(e.v) = e.nx * e.ny,
               spline_of_the_order_asked |-> Len(e.v) = Len(z) /\ \A k \in 1..Len(z) : LET p == GeoPx(e.cam, z[k]) \o <<>> IN At(e, <<RShort(p[1]), RShort(p[2])>>, e.v[k])]]
=============================================================================
