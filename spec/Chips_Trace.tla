---------------------------- MODULE Chips_Trace ----------------------------
(***************************************************************************)
(* Judges recorded chip cutting and mosaics.  case.img: pixels in          *)
(* (row, column, band) order, case.ny, nx, nb; case.gray: given as a plane.*)
(*   grid    cut on a grid           pos     cut at positions e.want       *)
(*   center  cut around e.want       disk    chips written and read back   *)
(*   mosaic  scores painted          usual   cut at the size they have     *)
(*                                           when none is asked for        *)
(* e.r: the chips' values, flat; e.ul: reported positions <<y, x>>.        *)
(***************************************************************************)
EXTENDS Chips, Lin, Judge
TInit(case) == <<>>

Size(case, e) == e.cny * e.cnx * Len(e.bands)
Part(e, i, w) == SubSeq(e.r, (i - 1) * w + 1, i * w)
CutCk(case, e) ==
  LET w == Size(case, e)
      flat == case.gray \/ Len(e.bands) = 1
      In(u) == 0 <= u[1] /\ u[1] + e.cny <= case.ny /\ 0 <= u[2] /\ u[2] + e.cnx <= case.nx
      whole == Len(e.r) = w * Len(e.ul)
  IN [one_chip_per_position |-> e.osh = <<Len(e.ul), e.cny, e.cnx>> \o (IF flat THEN <<>> ELSE <<Len(e.bands)>>) /\ whole,
      inside |-> \A i \in 1..Len(e.ul) : In(e.ul[i]),
      sample_type |-> e.odt = case.dt,
      image_unchanged |-> e.same,
      pixels |-> whole => \A i \in 1..Len(e.ul) :
          In(e.ul[i]) => Part(e, i, w) = Content(case.img, case.nx, case.nb, e.ul[i], e.cny, e.cnx, e.bands)]

\* the upper left corner half a chip up and left of the centre, to less than a pixel, kept inside
Near(s, p, c, n) ==
  LET w == RSub(p, RDiv(c, 2))
      f == RFloor(w)
  IN s \in {Fit(f, c, n), Fit(IF REq(f, w) THEN f ELSE f + 1, c, n)}

TStep(case, st, e) ==
  [st |-> st,
   ck |->
    IF e.err # "" THEN [no_error |-> FALSE]
    ELSE CASE e.op = "grid" ->
           LET Y == {e.ul[i][1] : i \in 1..Len(e.ul)}
               X == {e.ul[i][2] : i \in 1..Len(e.ul)}
           IN CutCk(case, e) @@
              [every_pixel_covered |-> \A y \in 0..(case.ny - 1), x \in 0..(case.nx - 1) :
                  \E i \in 1..Len(e.ul) : Over(e.ul[i], e.cny, e.cnx, y, x),
               neighbours_overlap_as_asked |-> Overlapping(Y, e.cny, e.vy) /\ Overlapping(X, e.cnx, e.vx),
               no_chip_twice |-> Cardinality({e.ul[i] : i \in 1..Len(e.ul)}) = Len(e.ul)]
         [] e.op = "pos" ->
           CutCk(case, e) @@
           [positions |-> Len(e.ul) = Len(e.want) /\ \A i \in 1..Len(e.want) :
               e.ul[i] = <<Fit(e.want[i][1], e.cny, case.ny), Fit(e.want[i][2], e.cnx, case.nx)>>]
         [] e.op = "center" ->
           CutCk(case, e) @@
              [positions |-> Len(e.ul) = Len(e.want) /\ \A i \in 1..Len(e.want) :
                 Near(e.ul[i][1], e.want[i][1], e.cny, case.ny) /\ Near(e.ul[i][2], e.want[i][2], e.cnx, case.nx)]
         [] e.op = "usual" ->
           \* chips of 256 rows and columns where no size is asked for
           [one_chip_per_position |-> e.osh = <<Len(e.ul), e.cny, e.cnx>> \o e.rest,
            positions |->
              IF e.how = "grid"
              THEN LET P == {<<y, x>> : y \in Starts(case.ny, e.cny, e.v[1]), x \in Starts(case.nx, e.cnx, e.v[2])}
                   IN {e.ul[i] : i \in 1..Len(e.ul)} = P /\ Len(e.ul) = Cardinality(P)
              ELSE Len(e.ul) = Len(e.want) /\ \A i \in 1..Len(e.want) :
                   IF e.how = "pos" THEN e.ul[i] = <<Fit(e.want[i][1], e.cny, case.ny), Fit(e.want[i][2], e.cnx, case.nx)>>
                   ELSE Near(e.ul[i][1], e.want[i][1], e.cny, case.ny) /\ Near(e.ul[i][2], e.want[i][2], e.cnx, case.nx)]
         [] e.op = "disk" ->
           [names |-> e.names = e.wnames,
            pixels |-> e.r = e.w, shape |-> e.osh = e.wsh]
         [] e.op = "mosaic" ->
           LET ny == MosaicRows(e.uls, e.cy)
               nx == MosaicCols(e.uls, e.cx)
           IN [spans_all_chips |-> e.osh = <<ny, nx>> /\ Len(e.r) = ny * nx,
               highest_score |-> \A k \in 1..Len(e.r) : SameNum(e.r[k], ShownAt(e.uls, e.ss, e.cy, e.cx, RowOf(nx, k), ColOf(nx, k)))]]
===========================================================================
