---------------------------- MODULE Stats_Trace ----------------------------
(***************************************************************************)
(* Judges recorded statistics and detector results.  case.P: spectra in    *)
(* row order, case.keep: which pixels are unmasked, case.scale: a bound on *)
(* the unmasked values; e.tol: relative tolerance.  e.r: the result, flat; *)
(* e.osh its shape and e.sh the shape it must have.                        *)
(***************************************************************************)
EXTENDS Stats, Judge
\* statistics are computed once per case
TInit(case) ==
  LET Q == KeptPx(case.P, case.keep)
      all == case.P
      C == IF case.cov THEN Cov(Q) ELSE <<>>
      CA == IF case.cov /\ case.finite THEN Cov(all) ELSE <<>>
  IN [m |-> Mean(Q), c |-> C, iv |-> IF case.cov THEN Inverse(C) ELSE <<>>,
      ma |-> IF case.finite THEN Mean(all) ELSE <<>>, iva |-> IF CA # <<>> THEN Inverse(CA) ELSE <<>>]

Rows(e, w) == Force([i \in 1..(Len(e.r) \div w) |-> SubSeq(e.r, (i - 1) * w + 1, i * w)])
CloseTo(a, b, t) == IF RFin(b) THEN RClose(a, b, t) ELSE TRUE     \* 0/0: nothing is claimed
PerPixel(case, e, f(_)) ==
  Len(e.r) = Len(case.P) /\ \A i \in 1..Len(case.P) : (case.finite \/ case.keep[i]) => LET v == f(case.P[i]) IN CloseTo(e.r[i], v, RMul(e.tol, RMax(1, RAbs(v))))
ShapeCk(e) == [shape |-> e.osh = e.sh, inputs_unchanged |-> e.same]

TStep(case, st, e) ==
  [st |-> st,
   ck |->
    IF e.err # "" THEN [no_error |-> FALSE]
    ELSE ShapeCk(e) @@
    CASE e.op = "mean" ->
           [mean_of_the_unmasked |-> CloseSeq(e.r, st.m, RMul(e.tol, case.scale))]
      [] e.op = "cov" ->
           [covariance_of_the_unmasked |-> CloseSeq(e.r, Flat(st.c), RMul(e.tol, RSq(case.scale)))]
      [] e.op = "demean" ->
           LET R == Rows(e, Len(st.m))
           IN [mean_removed |-> Len(R) = Len(case.P) /\ \A i \in 1..Len(case.P) :
                 case.keep[i] => CloseSeq(R[i], VSub(case.P[i], st.m), RMul(e.tol, case.scale))]
      [] e.op = "rx" ->     \* the mean and covariance of all pixels, unless given
           LET mu == IF e.m = <<>> THEN st.ma ELSE e.m
               iv == IF e.iv = <<>> THEN st.iva ELSE e.iv
           IN [rx |-> PerPixel(case, e, LAMBDA x : Rx(x, mu, iv))]
      [] e.op = "ace" ->
           LET mu == IF e.m = <<>> THEN st.m ELSE e.m
               iv == IF e.iv = <<>> THEN st.iv ELSE e.iv
           IN [ace |-> PerPixel(case, e, LAMBDA x : Ace(x, e.t, mu, iv)),
               between_zero_and_one |-> e.definite => \A i \in 1..Len(e.r) : RFin(e.r[i]) => RLe(RNeg(e.tol), e.r[i]) /\ RLe(e.r[i], RAdd(1, e.tol)),
               one_at_the_target |-> \A i \in 1..Len(case.P) : (RFin(e.r[i]) /\ SameSeq(case.P[i], e.t)) => RClose(e.r[i], 1, e.tol)]
      [] e.op = "ace_demeaned" ->
           [ace |-> PerPixel(case, e, LAMBDA x : AceD(x, e.t, e.iv))]
      [] e.op = "sam" ->
           [sam |-> PerPixel(case, e, LAMBDA x : Sam(x, e.t))]
      [] e.op = "same" ->   \* the flattened form, pixel by pixel; or the result with other values under the mask
           [same_result |-> CloseSeq(e.r, e.w, RMul(e.tol, RMax(1, e.scale)))]
      [] e.op = "flat" ->
           [spectra_kept_together |-> EqMat(Rows(e, NBands(case.P)), case.P)]
      [] e.op = "transform" ->      \* e.c1, e.c2: other scene's statistics; e.a1, e.a2: witnesses of the square roots
           LET L == MatOf(e.r, Len(e.a1), Len(e.a1))
               C2 == Cov(KeptPx(e.P2, e.keep2))
               Root(a, c) == /\ \A i, j \in 1..Len(a) : RClose(a[i][j], a[j][i], "1/1000000000")
                             /\ \A k \in 1..Len(a) : RLt(0, Det([i \in 1..k |-> SubSeq(a[i], 1, k)]))
                             /\ CloseSeq(Flat(MMul(a, a)), Flat(c), RMul("1/100000000", RSq(e.scale)))
           IN [witnesses |-> Root(e.a1, st.c) /\ Root(e.a2, C2),
               carries_one_root_to_the_other |-> CloseSeq(Flat(MMul(L, e.a1)), Flat(e.a2), RMul(e.tol, e.scale))]
      [] e.op = "equalized" ->
           LET R == Rows(e, Len(e.L))
           IN [transformed_spectra |-> Len(R) = Len(case.P) /\ \A i \in 1..Len(case.P) :
                 (case.finite \/ case.keep[i]) => CloseSeq(R[i], MVec(e.L, case.P[i]), RMul(e.tol, e.scale))]
      [] e.op = "pca" ->
           LET Y == Rows(e, e.k)
               C == Cov(Y)
               S == st.c
               sc == RMul(e.tol, RMax(1, Trace(S)))
               Dist(a, b) == LET d == VSub(a, b) IN RDot(d, d)
           IN [one_row_per_pixel |-> Len(Y) = Len(case.P),
               centred |-> \A j \in 1..e.k : RClose(Mean(Y)[j], 0, sc),
               uncorrelated |-> \A i, j \in 1..e.k : i # j => RClose(C[i][j], 0, sc)] @@
              (IF e.whiten THEN [unit_variance |-> \A j \in 1..e.k : RClose(C[j][j], 1, "1/1000000")]
               ELSE [decreasing_variance |-> \A j \in 1..(e.k - 1) : RLe(C[j + 1][j + 1], RAdd(C[j][j], sc)),
                     distances_kept |-> \A i, j \in 1..Len(Y) : i < j =>
                        IF e.k = NBands(case.P) THEN RClose(Dist(Y[i], Y[j]), Dist(case.P[i], case.P[j]), RMul(sc, 10))
                        ELSE RLe(Dist(Y[i], Y[j]), RAdd(Dist(case.P[i], case.P[j]), RMul(sc, 10)))] @@
                    [variances_are_the_covariances_own |-> \A j \in 1..e.k :
                        RClose(Det([a \in 1..Len(S) |-> [b \in 1..Len(S) |-> RSub(S[a][b], IF a = b THEN C[j][j] ELSE 0)]]), 0,
                               RMul("1/100000000", e.detscale))])]
===========================================================================
