---------------------------- MODULE TraceCounting ----------------------------
(* Events: one prediction of a counting quantifier of the library.
   e.kind  "labels"  the bag was given as class labels (e.preds, as class indexes; 0: a label that is no class)
           "probs"   as posterior rows (e.rows), to be converted to labels
           "column"  as one column of binary scores (e.scores)
           "mean"    posterior rows averaged by the probabilistic version
   e.n     number of classes,  e.out  prevalences returned,  e.exc  exception raised ("" if none) *)
EXTENDS TraceBase, Rat, FiniteSets
C == INSTANCE Counting WITH K <- 0, Rows <- {}, MaxN <- 0, bag <- <<>>, cnt <- <<>>, mass <- <<>>
Tol == "1/1000000000"

Expected(e) ==
  CASE e.kind = "labels" -> C!ClassifyCount(e.preds, e.n)
    [] e.kind = "probs"  -> C!ClassifyCount([i \in 1..Len(e.rows) |-> C!ArgMax(e.rows[i])], e.n)
    [] e.kind = "column" -> C!ClassifyCount([i \in 1..Len(e.scores) |-> C!Thresholded(e.scores[i])], e.n)
    [] e.kind = "mean"   -> C!MeanPosterior(e.rows)

TStart == 0
TAfter(s, e) == 0
TFailing(s, e) == IF e.exc # "" THEN {"answers"}
                  ELSE IF Len(e.out) # e.n THEN {"one-value-per-class"}
                  ELSE If(VClose(e.out, Expected(e), Tol), "prevalences-are-" \o e.kind)
==============================================================================
