----------------------------- MODULE TraceEnergy -----------------------------
(* Events: one prediction.  e.kind "EDy", "EDX" (rows as given) or "CvMy" (rows replaced by
   joint ranks); e.rows training rows, e.y their classes (1..e.n), e.trows bag, e.dist. *)
EXTENDS TraceBase, Simplex
E == INSTANCE Energy WITH NC <- 0, Points <- {}, MaxTrain <- 0, MaxTest <- 0, cls <- <<>>, bag <- <<>>
Tol == "1/100000000"
Of(rows, y, c) == LET ix == SelectSeq([i \in 1..Len(y) |-> i], LAMBDA i : y[i] = c) IN [i \in 1..Len(ix) |-> rows[ix[i]]]
All(e) == IF e.kind = "CvMy" THEN E!Ranks(e.rows \o e.trows) ELSE e.rows \o e.trows
TStart == 0
TAfter(s, e) == 0
TFailing(s, e) ==
  IF e.exc # "" THEN {"answers"}
  ELSE IF Len(e.out) # e.n \/ ~VAllNum(e.out) THEN {"one-value-per-class"}
  ELSE LET all == Force(All(e))
           m == Len(e.rows)
           C == Force([c \in 1..e.n |-> Of(SubSeq(all, 1, m), e.y, c)])
           t == Force(SubSeq(all, m + 1, Len(all)))
       IN If(IsDistribution(e.out, "1/1000000"), "distribution")
          \cup If(E!IsEnergyMinimiser(E!Pairwise(e.dist, C), E!ToBag(e.dist, C, t), e.out, Tol), "minimises-energy-distance")
==============================================================================
