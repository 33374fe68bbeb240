------------------------------ MODULE Spectrum ------------------------------
(***************************************************************************)
(* A spectrum: the last wavelengths, values, widths and nodata value it    *)
(* was given.  Values equal to the nodata value read as not-a-number;      *)
(* reading gives fresh values.  Resampling gives for each band the mean    *)
(* over the spectrum's wavelengths (trapezoids), weighted by the band's    *)
(* response, which is linear between its samples and nought outside.       *)
(***************************************************************************)
EXTENDS Lin

Empty == [vals |-> <<>>, waves |-> <<>>, fwhm |-> <<>>, nodata |-> <<>>, sunit |-> "None", wunit |-> "None", fname |-> "None"]
\* the nodata value is absent (<<>>) or one number
IsNodata(s, v) == s.nodata # <<>> /\ RFin(s.nodata[1]) /\ RFin(v) /\ REq(s.nodata[1], v)
Marked(s, mark) == [i \in 1..Len(s.vals) |-> IF mark /\ IsNodata(s, s.vals[i]) THEN "nan" ELSE s.vals[i]] \o <<>>

\* ---- resampling
Segment(w, x) == {i \in 1..(Len(w) - 1) : RLe(w[i], x) /\ RLe(x, w[i + 1])}
Response(b, x) ==
  IF Segment(b.waves, x) = {} THEN 0
  ELSE LET i == CHOOSE k \in Segment(b.waves, x) : TRUE
       IN RAdd(b.vals[i], RMul(RDiv(RSub(x, b.waves[i]), RSub(b.waves[i + 1], b.waves[i])), RSub(b.vals[i + 1], b.vals[i])))
RECURSIVE Trapz(_, _, _)
Trapz(w, v, k) == IF k < 2 THEN 0
                  ELSE RAdd(Trapz(w, v, k - 1), RMul(RSub(w[k], w[k - 1]), RDiv(RAdd(v[k], v[k - 1]), 2)))
BandMean(s, b) ==
  LET n == Len(s.waves)
      r == [i \in 1..n |-> Response(b, s.waves[i])] \o <<>>
      p == [i \in 1..n |-> RMul(r[i], s.vals[i])] \o <<>>
  IN RDiv(Trapz(s.waves, p, n), Trapz(s.waves, r, n))
Resampled(s, bands) == [k \in 1..Len(bands) |-> BandMean(s, bands[k])] \o <<>>

\* ---- one step of a history
Step(s, e) ==
  CASE e.op = "vals" -> [s EXCEPT !.vals = e.v]
    [] e.op = "waves" -> [s EXCEPT !.waves = e.v]
    [] e.op = "fwhm" -> [s EXCEPT !.fwhm = e.v]
    [] e.op = "nodata" -> [s EXCEPT !.nodata = e.v]
    [] e.op = "sunit" -> [s EXCEPT !.sunit = e.v]
    [] e.op = "wunit" -> [s EXCEPT !.wunit = e.v]
    [] e.op = "fname" -> [s EXCEPT !.fname = e.v]
    [] OTHER -> s
=============================================================================
