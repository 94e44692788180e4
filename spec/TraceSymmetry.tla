--------------------------- MODULE TraceSymmetry ---------------------------
(* Events  base: the answer e.out for a problem with e.n classes; step: one more transformation (e.op, e.i, e.j), and the
   answer e.out for the problem so transformed.  e.moves: exchanging classes is a symmetry of this kind of quantifier;
   e.draws: it draws bags of examples, so only names are free; e.plain: the exchange of classes may be judged, as the class
   descriptions e.desc (rows; <<>> if the kind has none) are independent enough for one answer only. *)
EXTENDS TraceBase, Symmetry
TStart == [out |-> <<>>, sigma |-> <<>>]
(* Gram determinant of descriptions, scaled by their squared lengths *)
Apart(D) == IF Len(D) = 0 THEN TRUE
  ELSE LET G == Force([i \in 1..Len(D) |-> [j \in 1..Len(D) |-> RDot(D[i], D[j])]]) IN
       LET scale[i \in 0..Len(D)] == IF i = 0 THEN 1 ELSE RMul(scale[i - 1], G[i][i]) IN
       IF REq(scale[Len(D)], 0) THEN FALSE ELSE RLe("1/50", RDiv(RDet(G), scale[Len(D)]))
Next1(s, e) == IF e.op = "classes" THEN Exchange(s.sigma, e.i, e.j) ELSE s.sigma
TAfter(s, e) == IF e.ev = "base" THEN [out |-> e.out, sigma |-> Identity(e.n)] ELSE [s EXCEPT !.sigma = Next1(s, e)]
TFailing(s, e) ==
  IF e.exc # "" THEN {"answers"}
  ELSE IF ~VAllNum(e.out) THEN {"finite"}
  ELSE IF e.ev = "base" THEN {}
  ELSE LET sg == Next1(s, e) IN
    IF Len(e.out) # Len(s.out) THEN {"one-value-per-class"}
    ELSE IF sg = Identity(Len(sg)) THEN
       IF VClose(e.out, s.out, e.tol) THEN {}
       ELSE IF e.draws /\ e.op # "names" THEN {}
       ELSE {IF e.op = "names" THEN "names-do-not-matter" ELSE IF e.op = "classes" THEN "classes-are-exchangeable" ELSE "order-does-not-matter"}
    ELSE IF e.moves THEN IF Apart(e.desc) THEN If(VClose(e.out, Moved(sg, s.out), e.wide), "classes-are-exchangeable") ELSE {}
    ELSE {}
=============================================================================
