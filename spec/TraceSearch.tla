----------------------------- MODULE TraceSearch -----------------------------
(* Events of the search and solver functions.
   e.kind "global", "golden": piecewise-linear loss e.xs, e.ys on [e.lo, e.hi], answer e.out = <<1-p, p>>,
                     (golden) reported loss e.floss, tolerance e.tol
          "L1", "L2", "HD": mixture matrix e.M (rows: bins), target e.t, answer e.out
          "ED": e.K pairwise class distances, e.Kt distances to the bag, answer e.out *)
EXTENDS TraceBase, Simplex
S == INSTANCE Search WITH N <- 0, Levels <- {}, loss <- <<>>, a <- 1, b <- 1

OptTol(kind) == "1/50000"
(* energy distance of the mixture p to the bag, up to the within-bag term *)
Energy(K, Kt, p) == RSub(RMul(2, RDot(p, Kt)), RDot(p, MVec(K, p)))

Slope(e) == S!MaxOf([i \in 1..(Len(e.xs) - 1) |-> RAbs(RDiv(RSub(e.ys[i + 1], e.ys[i]), RSub(e.xs[i + 1], e.xs[i])))])
Constant(e) == S!MaxOf(e.ys) = S!MinOf(e.ys)
SearchOk(e) ==
  LET slack == RAdd("1/1000000000", RMul(RMul(2, e.tol), Slope(e)))
      p == e.out[2]
  IN If(Len(e.out) = 2 /\ IsDistribution(e.out, "1/1000000000"), "distribution")
     \cup (IF Len(e.out) # 2 \/ ~VAllNum(e.out) THEN {}
           ELSE If(RLe(RSub(e.lo, "1/1000000000"), p) /\ RLe(p, RAdd(e.hi, "1/1000000000")), "inside-the-interval")
                \cup If(RLe(S!PWL(e.xs, e.ys, p), RAdd(S!Least(e.xs, e.ys, e.lo, e.hi), slack)), "global-minimum")
                \cup (IF e.kind = "golden" THEN If(RNum(e.floss) /\ RClose(e.floss, S!PWL(e.xs, e.ys, p), slack), "reported-loss") ELSE {}))
SolverOk(e) ==
  LET tol == OptTol(e.kind)
      O(q) == IF e.kind = "ED" THEN Energy(e.K, e.Kt, q) ELSE ObjOf(e.kind, e.M, e.t, q)
  IN IF Len(e.out) # e.n \/ ~VAllNum(e.out) THEN {"one-value-per-class"}
     ELSE If(IsDistribution(e.out, "1/10000"), "distribution")
          \cup If(IsMinimiser(O, e.out, tol), "minimiser-" \o e.kind)
TStart == 0
TAfter(s, e) == 0
TFailing(s, e) ==
  IF e.kind \in {"global", "golden"}
  THEN IF e.exc # "" THEN (IF e.kind = "global" /\ e.exc = "ValueError" /\ Constant(e) THEN {} ELSE {"answers"})
       ELSE SearchOk(e)
  ELSE IF e.exc # "" THEN {"answers"} ELSE SolverOk(e)
==============================================================================
