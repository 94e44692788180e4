----------------------------- MODULE MCValidity -----------------------------
(* The situations a quantifier is asked in: trained with a training set of some profile, then asked about bags of some
   profiles, one after the other, perhaps trained again meanwhile with a set of other classes.  The raw estimates it may
   come to are not limited; what it answers is their repair. *)
EXTENDS Validity, TLC, Json, Emit
CONSTANTS Classes, Sizes, Learners, BagSizes, BagKinds, Raw, Depth
VARIABLES n, answer, hist
vars == <<n, answer, hist>>
Init == n = 0 /\ answer = <<>> /\ hist = <<>>
Fit == \E k \in Classes, s \in Sizes, c \in Learners :
   /\ n' = k /\ answer' = <<>>
   /\ hist' = Append(hist, [op |-> "fit", n |-> k, sizes |-> s, learner |-> c, size |-> 0, bag |-> ""])
Predict == n > 0 /\ \E m \in BagSizes, b \in BagKinds, r \in [1..n -> Raw] :
   /\ answer' = Repair(r)
   /\ hist' = Append(hist, [op |-> "predict", n |-> n, sizes |-> "", learner |-> "", size |-> m, bag |-> b])
   /\ UNCHANGED n
Next == Len(hist) < Depth /\ IF Len(hist) % 3 = 0 THEN Fit ELSE Predict
AnswersAreDistributions == answer # <<>> => Valid(answer, n, 0)
Export == Len(hist) = Depth => EmitLine(ToJson(hist))
View == <<n, answer, Len(hist)>>
RawValues == {"-1", "0", "1/3", "1", "7/4"}
NoRaw == {"1"}
=============================================================================
