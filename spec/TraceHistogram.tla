--------------------------- MODULE TraceHistogram ---------------------------
(* Events: one prediction of a histogram quantifier.
   e.rows  descriptor values of the training examples (one column per descriptor), e.y their classes,
   e.trows of the bag; e.strat, e.nb bins; e.cdf; e.dist; e.probs whether descriptors are posteriors;
   e.cuts inner cut points per descriptor, e.mtrain and e.mtest the fitted descriptions, e.out answer. *)
EXTENDS TraceBase, Simplex
H == INSTANCE Histogram WITH NC <- 0, Cuts <- <<>>, Values <- {}, MaxTrain <- 0, MaxTest <- 0, hist <- <<>>, bag <- <<>>
X == INSTANCE Metrics WITH K <- 0, D <- 0, p <- 0, q <- 0
Of(rows, y, c) == LET ix == SelectSeq([i \in 1..Len(y) |-> i], LAMBDA i : y[i] = c) IN [i \in 1..Len(ix) |-> rows[ix[i]]]
Obj(dist, Mx, t, q) == CASE dist \in {"L1", "L2", "HD"} -> ObjOf(dist, Mx, t, q)
                         [] dist = "fl1" -> X!L1(t, MVec(Mx, q))
                         [] dist = "fl2" -> X!L2(t, MVec(Mx, q))
                         [] dist = "fhd" -> X!HD(t, MVec(Mx, q))
                         [] dist = "ftopsoe" -> X!Topsoe(t, MVec(Mx, q))
Tol(e, m) == CASE e.dist = "HD" -> "1/50000"
               [] e.dist \in {"fhd", "ftopsoe"} -> "1/200"
               [] e.dist \in {"fl1", "fl2"} -> RMul(m, "1/5000")
               [] OTHER -> "1/20000"
MClose(A, B) == Len(A) = Len(B) /\ \A i \in 1..Len(A) : VClose(A[i], B[i], "1/1000000000")
TStart == 0
TAfter(s, e) == 0
TFailing(s, e) ==
  LET nd == Len(e.rows[1])
      C == Force([c \in 1..e.n |-> H!Describe(Of(e.rows, e.y, c), e.cuts, e.cdf)])
      Mx == Force(MTranspose(C))
      t == Force(H!Describe(e.trows, e.cuts, e.cdf))
      O(q) == Obj(e.dist, Mx, t, q)
      flat == e.n = 2 /\ \A g \in Grid(2) : RClose(O(g), O(<<1, 0>>), "1/1000000000000")   \* every prevalence equally good
  IN IF e.exc # "" THEN (IF e.exc = "ValueError" /\ e.dist \in {"fl1", "fl2", "fhd", "ftopsoe"} /\ flat THEN {} ELSE {"answers"})
     ELSE IF Len(e.out) # e.n \/ ~VAllNum(e.out) THEN {"one-value-per-class"}
     ELSE IF Len(e.cuts) # nd \/ \E d \in 1..nd : Len(e.cuts[d]) # e.nb - 1 \/ ~VAllNum(e.cuts[d]) THEN {"cut-points-" \o e.strat}
     ELSE If(IsDistribution(e.out, "1/100000"), "distribution")
          \cup If(\A d \in 1..nd : LET v == Force(MCol(e.rows, d)) IN
                      H!CutsOk(e.strat, v, e.y, e.n, e.nb, IF e.probs THEN 0 ELSE H!MinV(v), IF e.probs THEN 1 ELSE H!MaxV(v), e.cuts[d]),
                  "cut-points-" \o e.strat)
          \cup If(MClose(e.mtrain, Mx), "class-descriptions")
          \cup If(VClose(e.mtest, t, "1/1000000000"), "bag-description")
          \cup If(IsMinimiser(O, e.out, Tol(e, Len(t))), "closest-mixture-" \o e.dist)
=============================================================================
