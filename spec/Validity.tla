------------------------------ MODULE Validity ------------------------------
(* What every answer of every quantifier is: a distribution over the classes it was trained with.

   Raw estimates (inverse matrices, regressors, one-vs-rest members ...) may lie anywhere; Repair is what makes them a
   distribution: negative values are none, values above one are one, and the rest is shared in proportion, or evenly when
   nothing is left. *)
EXTENDS Rat, FiniteSets
Clip(x) == RMax(0, RMin(1, x))
Repair(raw) == LET c == Force([i \in 1..Len(raw) |-> Clip(raw[i])]) IN
  IF REq(RSum(c), 0) THEN [i \in 1..Len(raw) |-> RFrac(1, Len(raw))] ELSE VNormalise(c)
Valid(out, n, tol) == Len(out) = n /\ VAllNum(out) /\ IsDistribution(out, tol)
=============================================================================
