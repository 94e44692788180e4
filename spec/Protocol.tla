------------------------------ MODULE Protocol ------------------------------
(* How quantifiers use estimators and data.

   Data sets and bags are numbers; Classes(d) is the number of classes of data set d.  An estimator is 0 (not trained) or
   the data set it was trained with; the predictions of estimator e trained with d are those of model Model(e, d).
   A quantifier has roles r: r.tr and r.te the estimators of the training and the test role (0: none), r.needs whether it
   needs predictions for the training set, r.free whether it uses no predictions at all.
   Given predictions are those of some model g; 0: none are given. *)
EXTENDS Naturals, Sequences, FiniteSets

Model(e, d) == 10 * e + d
DataOf(m) == m % 10
(* training an untrained estimator, once, with the whole data set *)
Train(est, r, d) == [e \in 1..Len(est) |-> IF e \in {r.tr, r.te} /\ est[e] = 0 THEN d ELSE est[e]]
FitFails(r, g) == ~r.free /\ r.needs /\ r.tr = 0 /\ g = 0
PredictFails(r, g) == ~r.free /\ r.te = 0 /\ g = 0
(* what a quantifier knows after a fit: the data, and the model whose predictions it learnt from *)
Learn(est, r, d, g) == <<d, IF r.free \/ ~r.needs THEN 0 ELSE IF g # 0 THEN g ELSE Model(r.tr, Train(est, r, d)[r.tr])>>
(* all that the answer for bag b depends on *)
Key(know, est, r, b, g) == <<know[1], know[2], b, IF r.free THEN 0 ELSE IF g # 0 THEN g ELSE Model(r.te, est[r.te])>>
=============================================================================
