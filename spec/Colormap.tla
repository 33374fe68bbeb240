------------------------------ MODULE Colormap ------------------------------
(***************************************************************************)
(* Colours of grey values.  A palette is a sequence of colours <<r, g, b>> *)
(* with parts from 0 to 1, spread evenly from the lower to the upper limit.*)
(*   smooth   linear between neighbouring colours                          *)
(*   stepped  as many equal steps as colours, each of one colour           *)
(* A number of bins first makes that many colours, evenly, from the        *)
(* palette.  Values beyond the limits have the end colours.                *)
(***************************************************************************)
EXTENDS Lin

Mix(c, d, w) == [k \in 1..3 |-> RAdd(RMul(RSub(1, w), c[k]), RMul(w, d[k]))] \o <<>>
Place(lo, hi, v) == RDiv(RSub(v, lo), RSub(hi, lo))
AsInt(q, n) == CHOOSE i \in 0..n : REq(i, q)
Smooth(P, lo, hi, v) ==
  LET n == Len(P) IN
  IF RLe(v, lo) THEN P[1] ELSE IF RLe(hi, v) THEN P[n]
  ELSE LET pos == RMul(Place(lo, hi, v), n - 1)
           i == AsInt(RFloor(pos), n)
       IN Mix(P[i + 1], P[i + 2], RSub(pos, i))
Bins(P, m) == [k \in 1..m |-> Smooth(P, 0, m - 1, k - 1)] \o <<>>
\* a sequence of the colours a stepped value may have: both at the border of two steps (within a hair)
Stepped(P, lo, hi, v) ==
  LET n == Len(P)
      pos == RMul(Place(lo, hi, v), n)
      near(i) == RLe(RSub(i, "1/100000"), pos) /\ RLe(pos, RAdd(i + 1, "1/100000"))
        on == SelectSeq([i \in 1..n |-> i], LAMBDA i : near(i - 1))
  IN IF RLt(v, lo) THEN <<P[1]>> ELSE IF RLt(hi, v) THEN <<P[n]>> ELSE [i \in 1..Len(on) |-> P[on[i]]] \o <<>>
Colours(P, m, smooth, lo, hi, v) ==
  LET Q == IF m = 0 THEN P ELSE Bins(P, m)
  IN IF smooth THEN <<Smooth(Q, lo, hi, v)>> ELSE Stepped(Q, lo, hi, v)

\* ---- values
Normal(v, mn, mx, a, b) == RAdd(RMul(Place(mn, mx, v), RSub(b, a)), a)
Blend(u, v, w) == RAdd(RMul(u, w), RMul(v, RSub(1, w)))
\* positions 0, 1/s, 2/s, ... below n
Count(n, s) == RNeg(RFloor(RNeg(RMul(n, s))))
=============================================================================
