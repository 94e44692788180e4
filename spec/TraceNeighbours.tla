-------------------------- MODULE TraceNeighbours --------------------------
(* Events
   classify  e.pts, e.y training examples, e.n classes, e.k, e.metric; e.ask points, e.labels predicted classes
             (0: no class), e.proba rows
   quantify  e.y and e.ptrain the classes the classifier predicts for the training set, e.ptest for the bag; e.out *)
EXTENDS TraceBase, Neighbours
S == INSTANCE Simplex
A == INSTANCE AdjustedCount WITH K <- 0, MaxTrain <- 0, MaxTest <- 0, table <- <<>>, test <- <<>>
TStart == 0
TAfter(s, e) == 0
Tol == "1/1000000000"
Cm(e) == Force([t \in 1..e.n |-> LET m == SelectSeq([i \in 1..Len(e.y) |-> i], LAMBDA i : e.y[i] = t)
                           IN [p \in 1..e.n |-> RFrac(Cardinality({j \in 1..Len(m) : e.ptrain[m[j]] = p}), Len(m))]])
Obs(e) == Force([p \in 1..e.n |-> RFrac(Cardinality({i \in 1..Len(e.ptest) : e.ptest[i] = p}), Len(e.ptest))])
TFailing(s, e) ==
  IF e.exc # "" THEN {"answers"} ELSE
  CASE e.ev = "classify" ->
         If(Len(e.labels) = Len(e.ask) /\ \A i \in 1..Len(e.ask) : e.labels[i] \in Classes(e.metric, e.pts, e.y, e.n, e.k, e.ask[i]), "largest-total-weight")
         \cup If(Len(e.proba) = Len(e.ask) /\ \A i \in 1..Len(e.ask) : \E r \in Rows(e.metric, e.pts, e.y, e.n, e.k, e.ask[i]) : VClose(e.proba[i], r, Tol), "normalised-totals")
    [] e.ev = "quantify" ->
         IF Len(e.out) # e.n \/ ~VAllNum(e.out) THEN {"one-value-per-class"}
         ELSE LET cm == Cm(e) obs == Obs(e) IN
              IF e.n = 2 THEN If(VClose(e.out, A!Binary(cm, obs), Tol), "adjusted-count")
              ELSE LET Mx == Force(MTranspose(cm))  O(q) == S!ObjL1(Mx, obs, q) IN
                   If(IsDistribution(e.out, "1/100000"), "distribution") \cup If(S!IsMinimiser(O, e.out, "1/20000"), "adjusted-count")
    [] OTHER -> {"known-event"}
=============================================================================
