--------------------------- MODULE TraceProtocol ---------------------------
(* Events of a history
   start      e.role the roles (and settings) of the quantifiers, e.est the estimators
   fit        quantifier e.q with data set e.d and the predictions of model e.g
   predict    quantifier e.q, bag e.b, predictions of model e.g; e.out
   reference  answer e.out of a quantifier (settings e.kind) that has nothing but the data and predictions of key e.key
   after each e.exc, e.seen[i] the data set estimator i was trained with (0 none, -1: not a whole data set), e.fits[i] how
   often in this history (<<>>: not observable); e.changed names of the caller's arrays and templates that changed;
   e.refuse: a search with the user's distance may refuse (ValueError, e.out <<>>) when all prevalences are equally good;
   e.tol tolerance of answers; e.want the clauses to judge *)
EXTENDS TraceBase, Rat, Protocol
TStart == [role |-> <<>>, est |-> <<>>, fits |-> <<>>, know |-> <<>>, memo |-> {}]
None == <<0, 0>>
Fails(s, e) == CASE e.ev = "fit" -> FitFails(s.role[e.q], e.g)
                 [] e.ev = "predict" -> PredictFails(s.role[e.q], e.g)
                 [] OTHER -> FALSE
Est2(s, e) == IF e.ev = "fit" /\ ~Fails(s, e) THEN Train(s.est, s.role[e.q], e.d) ELSE s.est
Fits2(s, e) == LET n == Est2(s, e) IN [i \in 1..Len(s.est) |-> IF n[i] # s.est[i] THEN s.fits[i] + 1 ELSE s.fits[i]]
KeyOf(s, e) == IF e.ev = "reference" THEN <<e.kind, e.key>> ELSE <<s.role[e.q].kind, Key(s.know[e.q], s.est, s.role[e.q], e.b, e.g)>>
Refused(e) == e.ev \in {"predict", "reference"} /\ e.refuse /\ e.exc = "ValueError"
Answered(s, e) == e.ev \in {"predict", "reference"} /\ ~Fails(s, e) /\ IF e.exc = "" THEN TRUE ELSE Refused(e)
TAfter(s, e) ==
  IF e.ev = "start" THEN [role |-> e.role, est |-> e.est, fits |-> [i \in 1..Len(e.est) |-> 0], know |-> [q \in 1..Len(e.role) |-> None], memo |-> {}]
  ELSE IF e.ev = "fit" THEN [s EXCEPT !.est = Est2(s, e), !.fits = Fits2(s, e),
                                      !.know[e.q] = IF Fails(s, e) THEN None ELSE Learn(s.est, s.role[e.q], e.d, e.g)]
  ELSE IF Answered(s, e) THEN [s EXCEPT !.memo = @ \cup {<<KeyOf(s, e), e.out>>}]
  ELSE s
TFailing(s, e) ==
  LET W(c, name) == IF \E i \in 1..Len(e.want) : e.want[i] = c THEN name ELSE {} IN
  IF e.ev = "start" THEN {}
  ELSE (IF Fails(s, e) THEN W("protocol", If(e.exc = "ValueError", "missing-predictions-rejected"))
        ELSE If(IF e.exc = "" THEN TRUE ELSE Refused(e), "answers"))
       \cup (IF (e.exc # "" /\ ~Fails(s, e)) \/ e.seen = <<>> THEN {} ELSE
             W("protocol", If(e.seen = Est2(s, e), "trained-with-the-whole-training-set") \cup If(e.fits = Fits2(s, e), "trained-once")))
       \cup (IF ~Answered(s, e) THEN {} ELSE
             W("memo", If(VAllNum(e.out) /\ \A m \in s.memo : m[1] # KeyOf(s, e) \/ VClose(m[2], e.out, e.tol), "same-data-same-answer")))
       \cup W("pure", If(e.changed = <<>>, "callers-data-unchanged"))
=============================================================================
