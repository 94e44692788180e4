---------------------------- MODULE TraceMetrics ----------------------------
(* Events: one call of metric e.fn on vectors e.p, e.q (rows e.P, e.Q; labels e.y,
   e.z; scalars e.p, e.q), e.out result (a sequence: scalar results have length 1),
   e.exc exception, e.valid whether the lengths agree. *)
EXTENDS TraceBase, Rat
X == INSTANCE Metrics WITH K <- 0, D <- 0, p <- 0, q <- 0
Tol == "1/10000000"
Near(a, b) == /\ RNum(a) /\ RLe(RAbs(RSub(a, b)), RMul(Tol, RAdd(1, RAbs(b))))
Value(e) == CASE e.fn = "l1" -> X!L1(e.p, e.q)
              [] e.fn = "mean_absolute_error" -> X!MAE(e.p, e.q)
              [] e.fn = "l2" -> X!L2(e.p, e.q)
              [] e.fn = "mean_squared_error" -> X!MSE(e.p, e.q)
              [] e.fn = "hd" -> X!HD(e.p, e.q)
              [] e.fn = "bray_curtis" -> X!BrayCurtis(e.p, e.q)
              [] e.fn = "kld" -> X!KLD(e.p, e.q, e.eps)
              [] e.fn = "topsoe" -> X!Topsoe(e.p, e.q)
              [] e.fn = "jensenshannon" -> X!JS(e.p, e.q)
              [] e.fn = "probsymmetric" -> X!ProbSym(e.p, e.q)
              [] e.fn = "emd" -> X!EMD(e.p, e.q)
              [] e.fn = "emd_score" -> X!EMDScore(e.p, e.q)
              [] e.fn = "brier_multi" -> X!Brier(e.P, e.Q)
              [] e.fn = "binary_kld" -> X!BKLD(e.p, e.q, e.eps)
              [] e.fn = "bias" -> X!Bias(e.p, e.q)
              [] e.fn = "absolute_error" -> X!AE(e.p, e.q)
              [] e.fn = "squared_error" -> X!SE(e.p, e.q)
              [] e.fn = "relative_absolute_error" -> X!RAE(e.p, e.q, e.eps)
              [] e.fn = "symmetric_absolute_percentage_error" -> X!SAPE(e.p, e.q)
              [] e.fn = "normalized_absolute_score" -> X!NAS(e.p, e.q)
              [] e.fn = "normalized_squared_score" -> X!NSS(e.p, e.q)
TStart == 0
TAfter(s, e) == 0
TFailing(s, e) ==
  IF ~e.valid THEN If(e.exc # "", "rejects-different-lengths")
  ELSE IF e.exc # "" THEN {"answers"}
  ELSE CASE e.fn = "emd_distances" ->
              If(/\ Len(e.out) = Len(e.P)
                 /\ \A i \in 1..Len(e.P) : /\ Len(e.out[i]) = Len(e.Q)
                                           /\ \A j \in 1..Len(e.Q) : Near(e.out[i][j], X!EMD(e.P[i], e.Q[j])),
                 "value-of-emd_distances")
         [] e.fn = "geometric_mean" -> If(Len(e.out) = 1 /\ X!IsGMean(e.out[1], e.y, e.z, e.corr, "1/1000000000"), "value-of-geometric_mean")
         [] OTHER -> If(Len(e.out) = 1 /\ Near(e.out[1], Value(e)), "value-of-" \o e.fn)
=============================================================================
