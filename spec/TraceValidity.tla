--------------------------- MODULE TraceValidity ---------------------------
(* Events  fit: e.n classes, e.exc   predict: e.out, e.exc; e.refuse: the distance of the user may refuse (ValueError) when
   all prevalences are equally good *)
EXTENDS TraceBase, Validity
TStart == 0
TAfter(s, e) == IF e.ev = "fit" THEN e.n ELSE s
TFailing(s, e) ==
  IF e.exc # "" THEN If(e.ev = "predict" /\ e.refuse /\ e.exc = "ValueError", "answers")
  ELSE IF e.ev = "fit" THEN {}
  ELSE IF Len(e.out) # s THEN {"one-value-per-class"}
  ELSE IF ~VAllNum(e.out) THEN {"finite"}
  ELSE If(\A i \in 1..s : RLe("-1/100000", e.out[i]), "non-negative") \cup If(RClose(RSum(e.out), 1, "1/100000"), "sums-to-one")
=============================================================================
