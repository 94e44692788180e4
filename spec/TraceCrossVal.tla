---------------------------- MODULE TraceCrossVal ----------------------------
(* Events:
   fit      e.N examples with class numbers e.y; e.tr[j]: ids model j reports to have been trained with, e.try[j]: the
            classes it was told; e.splits: left-out ids per model where the scheme determines them (<<>>: it is random);
            e.template: the estimator given was left unfitted
   predict  e.istrain: the queried data are the training data; e.ids; e.P[j]: rows of model j, e.known[j]: the classes it knows;
            e.what: "proba"/"labels"; e.avg, e.voting; e.out: rows of probabilities, or class numbers
   quant    a quantifier using the estimator: e.yext, e.out as it stores them
   State: what the last fit said *)
EXTENDS TraceBase, CrossVal
RangeOf(s) == {s[k] : k \in 1..Len(s)}
TStart == [N |-> 0, y |-> <<>>, tr |-> <<>>]
Sets(e) == [j \in 1..Len(e.tr) |-> RangeOf(e.tr[j])]
TAfter(s, e) == IF e.ev = "fit" /\ e.exc = "" THEN [N |-> e.N, y |-> e.y, tr |-> Sets(e)] ELSE s
Raw(s, e) ==
  LET rows == IF e.istrain THEN TrainRows(s.N, s.tr) ELSE OtherRows(s.tr, Len(e.ids))
  IN [r \in 1..Len(rows) |-> [i \in 1..Len(rows[r]) |-> Expand(e.P[rows[r][i]][i], e.known[rows[r][i]], e.nc)]]
RowsClose(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : VClose(a[i], b[i], "1/1000000000")
Good(s, e) ==
  LET raw == Force(Raw(s, e))
      mean == IF e.avg THEN Force(Averaged(raw)) ELSE <<>>
      stk == IF e.avg THEN <<>> ELSE Force(Stacked(raw))
  IN CASE e.what = "proba" -> If(RowsClose(e.out, IF e.avg THEN mean ELSE stk), IF e.istrain THEN "out-of-fold-probabilities" ELSE "all-models-probabilities")
       [] e.what = "labels" /\ ~e.avg -> If(e.out = [k \in 1..Len(stk) |-> ArgMax(stk[k])], "stacked-labels")
       [] e.what = "labels" /\ e.avg /\ e.voting = "hard" -> If(e.out = [i \in 1..Len(e.ids) |-> MostVoted(raw, i)], "majority-vote")
       [] e.what = "labels" /\ e.avg /\ e.voting = "soft" ->
            If(Len(e.out) = Len(e.ids) /\ \A i \in 1..Len(e.ids) : e.out[i] \in 1..e.nc /\ \A c \in 1..e.nc : RLe(RSub(mean[i][c], "1/1000000000"), mean[i][e.out[i]]), "soft-vote")
       [] OTHER -> {"known-event"}
Repeated(y, n) == [k \in 1..(Len(y) * n) |-> y[((k - 1) % Len(y)) + 1]]
TFailing(s, e) ==
  IF e.exc # "" THEN {"answers"} ELSE
  CASE e.ev = "fit" ->
         LET tr == Sets(e) IN
         If(\A j \in 1..Len(tr) : tr[j] \subseteq 1..e.N /\ Len(e.tr[j]) = Cardinality(tr[j]), "trained-on-training-examples")
         \cup If(\A j \in 1..Len(tr) : \A k \in 1..Len(e.tr[j]) : e.try[j][k] = e.y[e.tr[j][k]], "labels-of-the-examples")
         \cup If(WellFormed(e.N, tr), "folds-partition")
         \cup If(e.splits = <<>> \/ (Len(e.splits) = Len(tr) /\ \A j \in 1..Len(tr) : tr[j] = (1..e.N) \ RangeOf(e.splits[j])), "scheme-followed")
         \cup If(e.template, "template-unfitted")
    [] e.ev = "predict" -> IF e.istrain /\ ~WellFormed(s.N, s.tr) THEN {} ELSE Good(s, e)
    [] e.ev = "quant" -> IF ~WellFormed(s.N, s.tr) THEN {} ELSE
         If(e.yext = Repeated(s.y, IF e.avg THEN 1 ELSE NReps(s.N, s.tr)), "true-labels-line-up") \cup Good(s, e)
    [] OTHER -> {"known-event"}
===============================================================================
