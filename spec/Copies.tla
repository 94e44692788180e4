------------------------------- MODULE Copies -------------------------------
(* Objects (quantifiers and estimators), their settings and their copies.

   An object has settings, an estimator that is not trained (0) or trained with a data set (objects without one: always 0), and
   what it learnt at its last fit: the settings and the training of the estimator it then had, and the data set.
   Settings can be read at any time and are those given last, or else the documented ones.  A clone has the settings of the
   original and nothing learnt; a copy (in memory, or written and read back) has all of the original, and from then on what
   happens to one of them is of no concern to the other.  Answers depend on what was learnt, the estimator and the bag only. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
Nothing == [settings |-> <<>>, est |-> 0, data |-> 0]
Object(settings) == [settings |-> settings, est |-> 0, learnt |-> Nothing]
Fitted(o) == o.learnt # Nothing
Given(o, p, v) == [o EXCEPT !.settings = (p :> v) @@ @]
(* another estimator in the place of the one it had *)
NewEstimator(o) == [o EXCEPT !.est = 0]
Trained(o, d) == LET e == IF o.est = 0 THEN d ELSE o.est IN
                 [o EXCEPT !.est = e, !.learnt = [settings |-> o.settings, est |-> e, data |-> d]]
CloneOf(o) == Object(o.settings)
CopyOf(o) == o
(* does the last fit tell what it answers?  settings or estimators exchanged since then may count or not *)
Determined(o) == Fitted(o) /\ o.learnt.settings = o.settings /\ o.learnt.est = o.est
Key(o, b) == <<o.learnt, b>>
=============================================================================
