---------------------------- MODULE TraceFriedman ----------------------------
(* Events: one prediction: e.rows training posteriors with classes e.y (stacked repetitions: longer than e.y0,
   the classes fitted with), bag e.trows, e.dist, e.out. *)
EXTENDS TraceBase, Simplex
Fr == INSTANCE Friedman WITH NC <- 0, PostRows <- {}, MaxTrain <- 0, MaxTest <- 0, cls <- <<>>, bag <- <<>>
X == INSTANCE Metrics WITH K <- 0, D <- 0, p <- 0, q <- 0
Of(rows, y, c) == LET ix == SelectSeq([i \in 1..Len(y) |-> i], LAMBDA i : y[i] = c) IN [i \in 1..Len(ix) |-> rows[ix[i]]]
Obj(dist, Mx, t, q) == CASE dist \in {"L1", "L2", "HD"} -> ObjOf(dist, Mx, t, q)
                         [] dist = "fl1" -> X!L1(t, MVec(Mx, q))
                         [] dist = "fl2" -> X!L2(t, MVec(Mx, q))
                         [] dist = "fhd" -> X!HD(t, MVec(Mx, q))
Tol(d) == CASE d = "HD" -> "1/50000" [] d = "fhd" -> "1/200" [] d \in {"fl1", "fl2"} -> "1/2000" [] OTHER -> "1/20000"
TStart == 0
TAfter(s, e) == 0
TFailing(s, e) ==
  LET tr == Force([k \in 1..e.n |-> RFrac(Cardinality({i \in 1..Len(e.y) : e.y[i] = k}), Len(e.y))])
      Mx == Force(MTranspose([k \in 1..e.n |-> Fr!Rate(Of(e.rows, e.y, k), tr)]))
      t == Force(Fr!Rate(e.trows, tr))
      O(q) == Obj(e.dist, Mx, t, q)
      flat == e.n = 2 /\ \A g \in Grid(2) : RClose(O(g), O(<<1, 0>>), "1/1000000000000")
  IN IF e.exc # "" THEN (IF e.exc = "ValueError" /\ e.dist \in {"fl1", "fl2", "fhd"} /\ flat THEN {} ELSE {"answers"})
     ELSE IF Len(e.out) # e.n \/ ~VAllNum(e.out) THEN {"one-value-per-class"}
     ELSE If(IsDistribution(e.out, "1/100000"), "distribution")
          \cup If(MTranspose(Mx) # <<>> /\ Len(e.mtrain) = e.n /\ (\A k \in 1..e.n : VClose(e.mtrain[k], Mx[k], "1/1000000000")), "class-exceedance-rates")
          \cup If(VClose(e.mtest, t, "1/1000000000"), "bag-exceedance-rates")
          \cup If(IsMinimiser(O, e.out, Tol(e.dist)), "closest-mixture-" \o e.dist)
==============================================================================
