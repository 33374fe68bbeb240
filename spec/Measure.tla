------------------------------ MODULE Measure -------------------------------
(***************************************************************************)
(* Measurements read off images.                                           *)
(*                                                                         *)
(* WindowMean: the mean of the pixels that hold data in the square of w     *)
(* pixels a side around a pixel, as far as the image reaches: columns and  *)
(* rows c-w/2 .. c-w/2+w-1 (w/2 rounded down); none when there are none.   *)
(* A band is [nx, ny, v].                                                  *)
(*                                                                         *)
(* Agreement of two pictures (their unnormalised mutual information): over *)
(* the pixels, the sum of ln(n / (h*g)), n being how many pixels share the *)
(* pixel's pair of bins and h, g how many share its bin in either picture. *)
(*                                                                         *)
(* Places: where a mask holds a colour, or anything at all.                *)
(***************************************************************************)
EXTENDS Ortho, Trig

Lesser(a, b) == IF a < b THEN a ELSE b
Greater(a, b) == IF a < b THEN b ELSE a
\* numbers of the pixels of the window of side w around column cx and row cy, in row order
Window(b, cx, cy, w) ==
  LET x0 == Greater(0, cx - (w \div 2))  x1 == Lesser(b.nx - 1, cx - (w \div 2) + w - 1)
      y0 == Greater(0, cy - (w \div 2))  y1 == Lesser(b.ny - 1, cy - (w \div 2) + w - 1)
      n == x1 - x0 + 1
  IN IF x1 < x0 \/ y1 < y0 THEN <<>> ELSE [k \in 1..(n * (y1 - y0 + 1)) |-> (y0 + ((k - 1) \div n)) * b.nx + x0 + ((k - 1) % n) + 1] \o <<>>
Data(b, idx, nodata) == SelectSeq([k \in 1..Len(idx) |-> b.v[idx[k]]] \o <<>>, LAMBDA v : ~ SameNum(v, nodata))
MeanOf(s) == IF s = <<>> THEN "nan" ELSE RDiv(RSum(s), Len(s))
WindowMean(b, cx, cy, w, nodata) == MeanOf(Data(b, Window(b, cx, cy, w), nodata))

\* ---- equal bins between the least and the greatest value, the last one closed
BinOf(v, lo, hi, m) == Lesser(m - 1, RFloor(RDiv(RMul(m, RSub(v, lo)), RSub(hi, lo))))
Bins(s, m) == LET lo == RMinOf(s)  hi == RMaxOf(s) IN [k \in 1..Len(s) |-> BinOf(s[k], lo, hi, m)] \o <<>>
Count(s, v) == Len(SelectSeq(s, LAMBDA x : x = v))
Pairs(s, t) == [k \in 1..Len(s) |-> <<s[k], t[k]>>] \o <<>>
AgreementOfBins(a, b) == LET p == Pairs(a, b) IN RSum([k \in 1..Len(a) |-> Ln(RDiv(Count(p, p[k]), RMul(Count(a, a[k]), Count(b, b[k]))))] \o <<>>)
Agreement(s, t, m) == AgreementOfBins(Bins(s, m), Bins(t, m))

\* ---- pixels <<r, g, b>> in row order; places <<row, column>> in row order
Places(px, nx, Is(_)) ==
  LET hit == SelectSeq([k \in 1..Len(px) |-> k] \o <<>>, LAMBDA k : Is(px[k]))
  IN [k \in 1..Len(hit) |-> << (hit[k] - 1) \div nx, (hit[k] - 1) % nx >>] \o <<>>
=============================================================================
