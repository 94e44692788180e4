---------------------------- MODULE TraceCombine ----------------------------
(* Events: an ensemble answers.
   e.ps members' answers, e.strategy, e.f fraction; e.out (strategy # "all") or e.outs, by strategy, and e.out their average.
   For distribution similarity: e.rows descriptor values of all the training predictions (e.shape "each": a row per model), e.y, e.r,
   e.bags, e.trows of the test bag (e.tshape); e.n classes, e.probs whether descriptors are probabilities; e.strat, e.nb, e.cdf,
   e.metric; e.cuts inner cut points per descriptor. *)
EXTENDS TraceBase, Ensemble
H == INSTANCE Histogram WITH NC <- 0, Cuts <- <<>>, Values <- {}, MaxTrain <- 0, MaxTest <- 0, hist <- <<>>, bag <- <<>>
TStart == 0
TAfter(s, e) == 0
Flatten(T, shape) == IF shape = "each" THEN [k \in 1..Len(T) |-> Mean(T[k])] ELSE T
(* binary problems are described by one column of probabilities *)
Descriptors(T, e) == [k \in 1..Len(T) |-> IF e.probs /\ e.n = 2 THEN <<T[k][1]>> ELSE T[k]]
At(rows, pos) == [k \in 1..Len(pos) |-> rows[pos[k]]]
Repeated(y, r) == [k \in 1..(Len(y) * r) |-> y[((k - 1) % Len(y)) + 1]]
One(strategy, e, far, out) ==
  If(Len(out) = e.n /\ VAllNum(out) /\ \E v \in Allowed(strategy, e.ps, e.f, far) : VClose(out, v, Eps), strategy)
TFailing(s, e) ==
  IF e.exc # "" THEN {"answers"} ELSE
  LET needs == e.strategy \in {"all", "distribution_similarity"}
      rows == Force(IF needs THEN Descriptors(Flatten(e.rows, e.shape), e) ELSE <<>>)
      trows == Force(IF needs THEN Descriptors(Flatten(e.trows, e.tshape), e) ELSE <<>>)
      nd == IF needs THEN Len(rows[1]) ELSE 0
      cutsThere == Len(e.cuts) = nd /\ \A d \in 1..nd : Len(e.cuts[d]) = e.nb - 1 /\ VAllNum(e.cuts[d])
      t == Force(IF needs THEN H!Describe(trows, e.cuts, e.cdf) ELSE <<>>)
      far == Force(IF needs THEN [i \in 1..Len(e.bags) |-> DistanceOf(e.metric, t, H!Describe(At(rows, Times(e.bags[i], Len(e.y), e.r)), e.cuts, e.cdf))] ELSE <<>>)
      yy == Repeated(e.y, e.r)
      cutsOk(d) == LET v == Force(MCol(rows, d)) IN
                   \/ H!CutsOk(e.strat, v, yy, e.n, e.nb, H!MinV(v), H!MaxV(v), e.cuts[d])
                   \/ e.probs /\ H!CutsOk(e.strat, v, yy, e.n, e.nb, 0, 1, e.cuts[d])
  IN IF needs /\ ~cutsThere THEN {"cut-points-" \o e.strat}
     ELSE If(\A d \in 1..nd : cutsOk(d), "cut-points-" \o e.strat)
          \cup (IF e.strategy # "all" THEN One(e.strategy, e, far, e.out)
                ELSE UNION {One(Strategies[k], e, far, e.outs[k]) : k \in 1..4}
                     \cup If(\A k \in 1..4 : Len(e.outs[k]) = e.n /\ VAllNum(e.outs[k]), "distributions")
                     \cup (IF \A k \in 1..4 : Len(e.outs[k]) = e.n /\ VAllNum(e.outs[k]) THEN If(VClose(e.out, Mean(e.outs), Eps), "average-of-all") ELSE {}))
===============================================================================
