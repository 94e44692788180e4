------------------------------- MODULE TraceEM -------------------------------
(* Events: one EM prediction: e.counts training examples per class, posteriors e.rows, e.eps, e.max, answer e.out. *)
EXTENDS TraceBase, Rat
A == INSTANCE EM WITH K <- 0, PostRows <- {}, MaxBag <- 0, Counts <- {}, MaxIter <- 0, bag <- <<>>, counts <- <<>>, p <- <<>>, it <- 0
TStart == 0
TAfter(s, e) == 0
Tr(e) == [k \in 1..Len(e.counts) |-> RDiv(e.counts[k], RSum(e.counts))]
TFailing(s, e) ==
  IF e.exc # "" THEN {"answers"}
  ELSE IF Len(e.out) # Len(e.counts) \/ ~VAllNum(e.out) THEN {"one-value-per-class"}
  ELSE If(IsDistribution(e.out, "1/1000000"), "distribution")
       \cup If(A!Admissible(e.rows, Force(Tr(e)), e.eps, e.max, e.out), "is-the-stopping-iterate")
       \cup If(RLe(RSub(A!LogLik(e.rows, Tr(e), Tr(e)), "1/1000000"), A!LogLik(e.rows, e.out, Tr(e))), "likelihood-not-lowered")
==============================================================================
