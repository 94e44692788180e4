----------------------------- MODULE MCEnsemble -----------------------------
(* The life of an ensemble: bags are drawn, a classifier is trained per bag (or one for all, or the predictions are
   given), members are fitted and applied; refits draw new bags but keep trained classifiers. *)
EXTENDS Ensemble, Json, Emit
CONSTANTS N, Size, Members, Reps, Depth
VARIABLES bags,     \* bag i: sequence of examples
          shape,    \* "one" or "each"
          source,   \* "own" estimators, or predictions "given"
          models,   \* examples model i was trained with (own estimators: once)
          learnt,   \* what member i learnt: sequence of <<example, rep, model>>
          hist
vars == <<bags, shape, source, models, learnt, hist>>
AllBags == [1..Members -> [1..Size -> 1..N]]
ModelOf(i) == IF shape = "each" THEN i ELSE 0
Init == bags = <<>> /\ shape \in {"one", "each"} /\ source \in {"own", "given"} /\ models = <<>> /\ learnt = <<>> /\ hist = <<>>
Fit(b) == /\ bags' = b
          /\ models' = IF source = "given" \/ models # <<>> THEN models
                       ELSE [i \in 1..Members |-> IF shape = "each" THEN b[i] ELSE [k \in 1..N |-> k]]
          /\ learnt' = [i \in 1..Members |-> LET pos == Times(b[i], N, Reps) IN
                          [k \in 1..Len(pos) |-> <<Example(pos[k], N), ((pos[k] - 1) \div N) + 1, ModelOf(i)>>]]
          /\ hist' = Append(hist, b) /\ UNCHANGED <<shape, source>>
Next == Len(hist) < Depth /\ \E b \in AllBags : Fit(b)
Spec == Init /\ [][Next]_vars
(* each member learnt exactly the examples of its bag, once per prediction and occurrence *)
OwnBag == learnt # <<>> => \A i \in 1..Members : \A r \in 1..Reps :
            SameElements([k \in 1..Size |-> bags[i][k]],
                         LET s == SelectSeq(learnt[i], LAMBDA x : x[2] = r) IN [k \in 1..Len(s) |-> s[k][1]])
OwnModel == learnt # <<>> /\ shape = "each" => \A i \in 1..Members : \A k \in 1..Len(learnt[i]) : learnt[i][k][3] = i
Untouched == [][models # <<>> => models' = models]_vars
Export == Len(hist) = Depth => EmitLine(ToJson([bags |-> hist, shape |-> shape, source |-> source]))
=============================================================================
