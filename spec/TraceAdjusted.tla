---------------------------- MODULE TraceAdjusted ----------------------------
(* Events: e.kind "AC": training labels e.y with crisp predictions e.preds (class
   indexes) and test predictions e.test;  "PAC": posterior rows e.rows, e.trows.
   e.n classes, e.dist distance, e.out answer, e.exc exception. *)
EXTENDS TraceBase, Simplex
A == INSTANCE AdjustedCount WITH K <- 0, MaxTrain <- 0, MaxTest <- 0, table <- <<>>, test <- <<>>
Tol == "1/10000000"
OptTol(dist) == "1/50000"

Members(y, c) == SelectSeq([i \in 1..Len(y) |-> IF y[i] = c THEN i ELSE 0], LAMBDA i : i > 0)
CountIn(s, p) == Cardinality({i \in 1..Len(s) : s[i] = p})
Cm(e) == IF e.kind = "AC"
         THEN [t \in 1..e.n |-> LET m == Members(e.y, t)
                                    pr == [i \in 1..Len(m) |-> e.preds[m[i]]]
                                IN [p \in 1..e.n |-> RFrac(CountIn(pr, p), Len(m))]]
         ELSE [t \in 1..e.n |-> LET m == Members(e.y, t)
                                IN [p \in 1..e.n |-> VMean([i \in 1..Len(m) |-> e.rows[m[i]][p]])]]
Obs(e) == IF e.kind = "AC"
          THEN [p \in 1..e.n |-> RFrac(CountIn(e.test, p), Len(e.test))]
          ELSE [p \in 1..e.n |-> VMean(MCol(e.trows, p))]

TStart == 0
TAfter(s, e) == 0
TFailing(s, e) == IF e.exc # "" THEN {"answers"}
                  ELSE IF Len(e.out) # e.n \/ ~VAllNum(e.out) THEN {"one-value-per-class"}
                  ELSE If(A!Admissible(Cm(e), Obs(e), e.dist, e.out, Tol, OptTol(e.dist)), "inverts-confusion-matrix")
==============================================================================
