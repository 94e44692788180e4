----------------------------- MODULE Regression -----------------------------
(* Quantification by regression (REGX, REGy).

   A bag (a sequence of examples) is described by the fractions of its examples per bin of every descriptor; the
   regressors learn the prevalences of the classes from the descriptions of generated bags, one regressor per class
   (for two classes, one for the second), and are asked with the description of the test bag. *)
EXTENDS Rat, FiniteSets
H == INSTANCE Histogram WITH NC <- 0, Cuts <- <<>>, Values <- {}, MaxTrain <- 0, MaxTest <- 0, hist <- <<>>, bag <- <<>>
Pick(rows, bag) == [k \in 1..Len(bag) |-> rows[bag[k]]]
(* description of a bag of training examples *)
RowOf(rows, bag, cs) == H!Describe(Pick(rows, bag), cs, FALSE)
(* its prevalences *)
Share(y, bag, c) == RFrac(Cardinality({k \in 1..Len(bag) : y[bag[k]] = c}), Len(bag))
Targets(y, bag, n) == [c \in 1..n |-> Share(y, bag, c)]
(* number of regressors, and the class regressor k is for *)
Regressors(n) == IF n = 2 THEN 1 ELSE n
ClassOf(k, n) == IF n = 2 THEN 2 ELSE k
(* the answer from the regressors' outputs: clipped and normalised; nothing to normalise: any distribution *)
Full(raw, n) == IF n = 2 THEN <<RSub(1, raw[1]), raw[1]>> ELSE raw
Allowed(raw, n, out, tol) == LET c == VClip01(Full(raw, n)) IN
   IF RLt(0, RSum(c)) THEN VClose(out, VNormalise(c), tol) ELSE Len(out) = n /\ IsDistribution(out, tol)
=============================================================================
