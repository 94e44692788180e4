---------------------------- MODULE TraceEnsemble ----------------------------
(* Events
   clf     an ensemble of classifiers: e.bags, e.y; e.tr[i] examples model i was trained with and e.trl[i] the classes it
           was told; e.template unfitted; asked for some data: e.P[i] rows of model i over its classes e.known[i],
           e.L[i] its labels; e.proba[x][i] and e.labels[x][i] the ensemble's answers (e.asked: they were requested)
   lesson  an ensemble of quantifiers was fitted: e.bags, e.y, e.T, e.shape, e.r; e.got[i] the pairs member i was fitted with
           (for classifier-free members T is the list of examples); e.test: predictions of the test data (e.tshape), e.used[i]
           what member i was applied to; e.template the given quantifier is unfitted
   classes are numbers *)
EXTENDS TraceBase, Ensemble
TStart == 0
TAfter(s, e) == 0
Expand(row, known, nc) == [c \in 1..nc |-> IF \E k \in 1..Len(known) : known[k] = c
                                           THEN row[CHOOSE k \in 1..Len(known) : known[k] = c] ELSE "0"]
TFailing(s, e) ==
  IF e.exc # "" THEN {"answers"} ELSE
  CASE e.ev = "clf" ->
         If(Len(e.tr) = Len(e.bags), "one-model-per-bag")
         \cup (IF Len(e.tr) # Len(e.bags) THEN {} ELSE
              If(\A i \in 1..Len(e.bags) : SameElements(e.tr[i], e.bags[i]), "model-trained-on-its-bag")
              \cup If(\A i \in 1..Len(e.tr) : \A k \in 1..Len(e.tr[i]) : e.trl[i][k] = e.y[e.tr[i][k]], "true-labels")
              \cup If(~e.asked \/ (Len(e.proba) = Len(e.P[1]) /\ \A x \in 1..Len(e.proba) : Len(e.proba[x]) = Len(e.bags) /\ \A i \in 1..Len(e.bags) :
                        e.proba[x][i] = Expand(e.P[i][x], e.known[i], e.nc)), "probabilities-at-position")
              \cup If(~e.asked \/ (Len(e.labels) = Len(e.L[1]) /\ \A x \in 1..Len(e.labels) : Len(e.labels[x]) = Len(e.bags) /\ \A i \in 1..Len(e.bags) : e.labels[x][i] = e.L[i][x]), "labels-at-position"))
         \cup If(e.template, "template-unfitted")
    [] e.ev = "lesson" ->
         If(Len(e.got) = Len(e.bags), "one-member-per-bag")
         \cup (IF Len(e.got) # Len(e.bags) THEN {} ELSE
              If(\A i \in 1..Len(e.bags) : SameElements(e.got[i], Lesson(e.bags[i], i, e.y, e.T, e.shape, Len(e.y), e.r)), "member-fitted-on-its-bag")
              \cup If(\A i \in 1..Len(e.bags) : SameElements(e.used[i], TestOf(i, e.test, e.tshape)), "member-applied-to-its-predictions"))
         \cup If(e.template, "template-unfitted")
    [] OTHER -> {"known-event"}
===============================================================================
