------------------------------- MODULE Chips -------------------------------
(***************************************************************************)
(* Cutting an image of ny rows and nx columns into chips of cny rows and   *)
(* cnx columns, and painting chip scores into one mosaic.                  *)
(*                                                                         *)
(*   Starts    the grid cut along one axis: steps of the chip size less    *)
(*             the overlap; a chip that would leave the image is moved     *)
(*             back to its end                                             *)
(*   Fit       a requested position moved to the nearest one inside        *)
(*   Content   the pixels of a chip                                        *)
(*   Highest   the score shown at a place                                  *)
(***************************************************************************)
EXTENDS Rat, Shape, FiniteSets

Min2(a, b) == IF a <= b THEN a ELSE b
Max2(a, b) == IF a >= b THEN a ELSE b
\* grid positions along an axis of n pixels, chips of c pixels, overlap v < c
Starts(n, c, v) == {Min2(k * (c - v), n - c) : k \in 0..n}
Covered(S, c, n) == \A i \in 0..(n - 1) : \E s \in S : s <= i /\ i < s + c
InsideAxis(S, c, n) == \A s \in S : 0 <= s /\ s + c <= n
\* consecutive chips share at least v pixels
Overlapping(S, c, v) == \A s \in S : (\E t \in S : t > s) => \E t \in S : t > s /\ t - s <= c - v

Fit(s, c, n) == Max2(0, Min2(s, n - c))

\* chip at <<y, x>> of an image v (flat, nx columns, nb bands): bands is a sequence of band numbers
Content(v, nx, nb, ul, cny, cnx, bands) ==
  [k \in 1..(cny * cnx * Len(bands)) |->
     LET p == (k - 1) \div Len(bands)
     IN v[At3(nx, nb, ul[1] + (p \div cnx), ul[2] + (p % cnx), bands[((k - 1) % Len(bands)) + 1])]]

\* ---- mosaic: uls positions <<y, x>>, ss scores
Over(ul, cy, cx, y, x) == ul[1] <= y /\ y < ul[1] + cy /\ ul[2] <= x /\ x < ul[2] + cx
MosaicRows(uls, cy) == RMaxOf([i \in 1..Len(uls) |-> uls[i][1]]) + cy
MosaicCols(uls, cx) == RMaxOf([i \in 1..Len(uls) |-> uls[i][2]]) + cx
ShownAt(uls, ss, cy, cx, y, x) ==
  LET on == SelectSeq([i \in 1..Len(uls) |-> i], LAMBDA i : Over(uls[i], cy, cx, y, x))
  IN IF on = <<>> THEN 0 ELSE RMaxOf([i \in 1..Len(on) |-> ss[on[i]]])
===========================================================================
