------------------------------- MODULE Stats -------------------------------
(***************************************************************************)
(* Statistics of the spectra of an image and the detectors built on them.  *)
(* P is a sequence of spectra (one per pixel, row order), keep a sequence  *)
(* of BOOLEANs: the unmasked pixels.                                       *)
(***************************************************************************)
EXTENDS Lin, Shape

Kept(P, keep) == SelectSeq([i \in 1..Len(P) |-> <<keep[i], P[i]>>], LAMBDA q : q[1])
KeptPx(P, keep) == LET k == Kept(P, keep) IN [i \in 1..Len(k) |-> k[i][2]]
NBands(P) == Len(P[1])
\* the elements are evaluated once (TLC keeps a function by its definition otherwise)
Force(s) == s \o <<>>
Mean(Q) == Force([b \in 1..Len(Q[1]) |-> RDiv(RSum([i \in 1..Len(Q) |-> Q[i][b]]), Len(Q))])
\* sample covariance: squared deviations over one less than the number of pixels
Cov(Q) ==
  LET m == Mean(Q)
      D == Force([b \in 1..Len(m) |-> Force([i \in 1..Len(Q) |-> RSub(Q[i][b], m[b])])])
  IN Force([a \in 1..Len(m) |-> Force([b \in 1..Len(m) |-> RDiv(RDot(D[a], D[b]), Len(Q) - 1)])])

\* determinant and inverse by cofactors
Without(s, k) == [i \in 1..(Len(s) - 1) |-> IF i < k THEN s[i] ELSE s[i + 1]]
Minor(m, i, j) == LET r == Without(m, i) IN [k \in 1..Len(r) |-> Without(r[k], j)]
RECURSIVE Det(_)
Det(m) == IF Len(m) = 1 THEN m[1][1]
          ELSE IF Len(m) = 2 THEN RSub(RMul(m[1][1], m[2][2]), RMul(m[1][2], m[2][1]))
          ELSE RSum([j \in 1..Len(m) |-> RMul(IF j % 2 = 1 THEN m[1][j] ELSE RNeg(m[1][j]), Det(Minor(m, 1, j)))])
Inverse(m) ==
  LET d == Det(m)
  IN IF Len(m) = 1 THEN <<<<RDiv(1, d)>>>>
     ELSE Force([i \in 1..Len(m) |-> Force([j \in 1..Len(m) |->
            RDiv(RMul(IF (i + j) % 2 = 0 THEN 1 ELSE -1, Det(Minor(m, j, i))), d)])])
Trace(m) == RSum([i \in 1..Len(m) |-> m[i][i]])
Form(u, m, v) == RDot(u, MVec(m, v))                       \* u' m v

\* ---- detectors: x a spectrum, t the target, mu the mean, iv the inverse covariance
Rx(x, mu, iv) == LET d == VSub(x, mu) IN Form(d, iv, d)
AceD(d, t, iv) == RDiv(RSq(Form(t, iv, d)), RMul(Form(t, iv, t), Form(d, iv, d)))
Ace(x, t, mu, iv) == AceD(VSub(x, mu), VSub(t, mu), iv)
Sam(x, t) == RDiv(RDot(x, t), RMul(RSqrt(RDot(x, x)), RSqrt(RDot(t, t))))
===========================================================================
