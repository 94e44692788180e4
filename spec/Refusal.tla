------------------------------ MODULE Refusal ------------------------------
(* What cannot be quantified is refused, and a refusal is forgotten.

   An object knows nothing, or the data set of its last fit; after a refused fit it may know nothing or still the last one
   (nobody may rely on it).  A question is answered when the object knows a data set and the bag can be quantified; otherwise
   it is refused and changes nothing.  Answers depend on what is known and the bag only. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Nothing == 0
Unclear == -1
(* data that cannot be learnt from, bags that cannot be quantified *)
BadData == {"nan", "inf", "short", "empty"}
BadBags == {"nan", "inf", "empty", "features"}
(* methods for two classes are not for more *)
TwoClasses == {"SORDy", "QUANTy", "DeBias"}
(* counting needs the trained model only, the tree of quantifiers is part of its estimator, cross-validation may skip failing folds: what else is
   wrong with their data may go unnoticed *)
Careless(kind, trained) == kind = "CV_estimator" \/ (trained /\ kind \in {"CC", "PCC", "OrdinalQuantificationTree"})
Learnable(kind, d) == d \notin BadData /\ (d = "classes" => kind \notin TwoClasses)
Afterwards(known, op, what, refused) == IF op # "fit" THEN known ELSE IF refused THEN Unclear ELSE what
(* "answer", "refuse" or "any" *)
Response(known, good) == IF ~good THEN "refuse" ELSE IF known = Nothing THEN "refuse" ELSE IF known = Unclear THEN "any" ELSE "answer"
=============================================================================
