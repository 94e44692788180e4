---------------------------- MODULE TraceOrdinal ----------------------------
(* Events
   counts   e.y true classes (stacked predictions: repeated), e.preds predicted, e.test predicted; e.out
   scores   e.y, e.rows, e.trows posteriors, e.method, e.nb, e.dist; e.out *)
EXTENDS TraceBase, Simplex
O == INSTANCE Ordinal WITH K <- 0, B <- 0, MaxTrain <- 0, MaxTest <- 0, table <- <<>>, test <- <<>>
TStart == 0
TAfter(s, e) == 0
Tol(dist, m) == CASE dist = "HD" -> "1/50000" [] dist = "L2" -> "1/1000000" [] OTHER -> "1/10000"
Members(e, len, c) == SelectSeq([k \in 1..len |-> k], LAMBDA k : e.y[((k - 1) % Len(e.y)) + 1] = c)
At(s, ix) == [k \in 1..Len(ix) |-> s[ix[k]]]
Bins(e, rows) == Force([k \in 1..Len(rows) |->
                    O!PositionBin(IF e.method = "winner_node" THEN O!Leaf(rows[k]) ELSE O!Position(rows[k], e.n), e.n, e.nb)])
(* the columns are the classes *)
Train(e) == MTranspose([c \in 1..e.n |->
              IF e.ev = "counts" THEN O!Pdf(At(e.preds, Members(e, Len(e.preds), c)), e.n)
              ELSE O!Pdf(At(Bins(e, e.rows), Members(e, Len(e.rows), c)), e.nb * (e.n - 1))])
Test(e) == IF e.ev = "counts" THEN O!Pdf(e.test, e.n) ELSE O!Pdf(Bins(e, e.trows), e.nb * (e.n - 1))
TFailing(s, e) ==
  IF e.exc # "" THEN {"answers"} ELSE
  IF Len(e.out) # e.n \/ ~VAllNum(e.out) THEN {"one-value-per-class"} ELSE
  LET M == Force(Train(e))
      t == Force(Test(e))
      (* distances between cumulative sums are computed on cumulated columns *)
      MC == Force(O!Cumulative(M))
      tc == Force(VPrefixSums(t))
      Obj(q) == IF e.dist = "EMD" THEN ObjL1(MC, tc, q) ELSE ObjOf(e.dist, M, t, q)
  IN If(IsDistribution(e.out, "1/100000"), "distribution")
     \cup If(IsMinimiser(Obj, e.out, Tol(e.dist, Len(t))), "closest-" \o e.ev \o "-" \o e.dist)
===============================================================================
