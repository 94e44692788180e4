------------------------------ MODULE TraceBags ------------------------------
(* Events: one request: data labels e.y (1..e.n), e.size (0: as many as the data), e.nbags, e.min (rationals, <<>> for none),
   the first e.minbags bags are subject to e.min; e.invalid, and the answer: e.prev per bag, e.idx per bag (zero-based). *)
EXTENDS TraceBase, Rat, FiniteSets
B == INSTANCE BagComposition WITH N <- 0, NC <- 0, Size <- 0, Quarters <- {}, y <- 0, min <- <<1>>, counts <- <<0>>, bag <- <<>>
TStart == 0
TAfter(s, e) == 0
TFailing(s, e) ==
  LET size == IF e.size = 0 THEN Len(e.y) ELSE e.size IN
  IF e.invalid THEN If(e.exc = "ValueError", "invalid-request-rejected")
  ELSE IF e.exc # "" THEN {"valid-request-answered"}
  ELSE If(Len(e.idx) = e.nbags /\ Len(e.prev) = e.nbags, "number-of-bags")
       \cup UNION {
         LET idx == [i \in 1..Len(e.idx[b]) |-> e.idx[b][i] + 1] IN
         IF ~B!ValidIndexes(e.y, size, idx) THEN {"bag-size-valid-indexes"}
         ELSE IF b > Len(e.prev) THEN {"number-of-bags"}
         ELSE LET c == Force(B!CountsOf(e.y, e.n, idx)) IN
              If(Len(e.prev[b]) = e.n /\ VClose(e.prev[b], [k \in 1..e.n |-> RFrac(c[k], size)], "1/1000000000000"), "prevalence-is-composition")
              \cup If(e.min = <<>> \/ b > e.minbags \/ \A k \in 1..e.n : RLt(RSub(RMul(e.min[k], size), 1), c[k]), "minimum-prevalence")
         : b \in 1..Len(e.idx)}
==============================================================================
