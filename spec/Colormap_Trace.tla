--------------------------- MODULE Colormap_Trace ---------------------------
(***************************************************************************)
(* Judges recorded colourings, normalisations, blends and image helpers.   *)
(*   colour     a grey image through a palette                             *)
(*   normal     to a new range                                             *)
(*   blend      of two images                                              *)
(*   grid       pixel positions, by a scale                                *)
(*   uniform    an image of given values                                   *)
(*   flat       a band flattened and restored                              *)
(***************************************************************************)
EXTENDS Colormap, Shape, Judge
TInit(case) == 0
Eps == "1/1000000"
\* a number as stored: whole numbers are cut off towards nought
Stored(x, w, whole, tol) == IF whole THEN REq(x, RTrunc(RAdd(w, tol))) \/ REq(x, RTrunc(RSub(w, tol))) ELSE RClose(x, w, tol)
Limit(given, v, F(_)) == IF given # <<>> THEN given[1] ELSE F(v)
TStep(case, st, e) ==
  [st |-> st,
   ck |->
    IF e.err # "" THEN [no_error |-> FALSE]
    ELSE
    CASE e.op = "colour" ->
           LET good == {i \in 1..Len(e.v) : e.nodata = <<>> \/ ~ REq(e.v[i], e.nodata[1])}
               kept == SelectSeq(e.v, LAMBDA x : e.nodata = <<>> \/ ~ REq(x, e.nodata[1]))
               lo == Limit(e.lo, kept, RMinOf)
               hi == Limit(e.hi, kept, RMaxOf)
               Q == IF e.m = 0 THEN e.P ELSE Bins(e.P, e.m)
               Of(i) == <<e.r[3 * i - 2], e.r[3 * i - 1], e.r[3 * i]>>
           IN [shape |-> e.osh = <<e.ny, e.nx, 3>> /\ Len(e.r) = 3 * Len(e.v),
               type_asked |-> e.dt = e.wantdt,
               colour_of_the_value |-> Len(e.r) = 3 * Len(e.v) /\ \A i \in good :
                  LET cs == Colours(Q, 0, e.smooth, lo, hi, e.v[i])
                  IN \E c \in 1..Len(cs) : \A k \in 1..3 : Stored(Of(i)[k], RMul(255, cs[c][k]), e.whole, "1/10000"),
               equal_values_equal_colours |-> Len(e.r) = 3 * Len(e.v) /\ \A i \in good : LET j == CHOOSE k \in good : REq(e.v[k], e.v[i]) IN SameSeq(Of(i), Of(j)),
               inputs_unchanged |-> e.unchanged]
      [] e.op = "normal" ->
           LET mn == RMinOf(e.v) mx == RMaxOf(e.v)
           IN [shape |-> e.osh = <<e.ny, e.nx>> /\ Len(e.r) = Len(e.v),
               type_asked |-> e.wantdt = "" \/ e.dt = e.wantdt,
               linear_between_the_ends |-> Len(e.r) = Len(e.v) /\ \A i \in 1..Len(e.v) : Stored(e.r[i], Normal(e.v[i], mn, mx, e.a, e.b), e.whole, RMul(Eps, RMax(1, RMax(RAbs(e.a), RAbs(e.b))))),
               inputs_unchanged |-> e.unchanged]
      [] e.op = "blend" ->
           [shape |-> e.osh = e.sh,
            weighted_mean |-> Len(e.r) = Len(e.u) /\ \A i \in 1..Len(e.u) : RNear(e.r[i], Blend(e.u[i], e.v[i], e.w), Eps),
            inputs_unchanged |-> e.unchanged]
      [] e.op = "grid" ->
           LET nx == Count(e.nx, e.s) ny == Count(e.ny, e.s)
           IN [shape |-> e.osh = <<<<ny, nx>>, <<ny, nx>>>>,
               positions |-> Len(e.xs) = Len(e.ys) /\ REq(Len(e.xs), RMul(nx, ny)) /\ \A k \in 1..Len(e.xs) :
                  RNear(e.xs[k], RDiv(ColOf(nx, k), e.s), Eps) /\ RNear(e.ys[k], RDiv(RowOf(nx, k), e.s), Eps)]
      [] e.op = "uniform" ->
           [shape |-> e.osh = <<e.ny, e.nx, e.nb>>, type_asked |-> e.dt = e.wantdt,
            values |-> Len(e.r) = e.ny * e.nx * e.nb /\ \A k \in 1..Len(e.r) : REq(e.r[k], e.v[((k - 1) % e.nb) + 1])]
      [] e.op = "flat" ->
           [one_row |-> e.fsh = <<e.ny * e.nx>> /\ SameSeq(e.f, e.v), restored |-> e.osh = <<e.ny, e.nx>> /\ SameSeq(e.r, e.v)]]
=============================================================================
