----------------------------- MODULE MCProtocol -----------------------------
(* All histories of fits and predictions of two quantifiers that may share estimators. *)
EXTENDS Protocol, TLC, Json, Emit
CONSTANTS Roles,      \* the roles each quantifier may have
          Pre,        \* initial states of the two estimators
          Classes,    \* classes of each data set
          Bags, Given, Depth
VARIABLES role, est, fits, know, hist, answers
vars == <<role, est, fits, know, hist, answers>>
Data == 1..Len(Classes)
Nothing == <<0, 0>>
Init == /\ role \in [1..2 -> Roles] /\ est \in [1..2 -> Pre] /\ fits = <<0, 0>>
        /\ know = [q \in 1..2 |-> Nothing] /\ answers = {}
        /\ hist = <<[op |-> "start", q |-> 0, d |-> 0, b |-> 0, g |-> 0, role |-> role, est |-> est]>>
Ops == Len(hist) - 1
Fits(r, d) == \A e \in {r.tr, r.te} \ {0} : IF est[e] = 0 THEN TRUE ELSE Classes[est[e]] = Classes[d]
Fit(q, d, g) == LET r == role[q] IN
   /\ Fits(r, d)
   /\ IF FitFails(r, g) THEN know' = [know EXCEPT ![q] = Nothing] /\ UNCHANGED <<est, fits>>
      ELSE /\ est' = Train(est, r, d)
           /\ fits' = [e \in 1..2 |-> IF est'[e] # est[e] THEN fits[e] + 1 ELSE fits[e]]
           /\ know' = [know EXCEPT ![q] = Learn(est, r, d, g)]
   /\ hist' = Append(hist, [op |-> "fit", q |-> q, d |-> d, b |-> 0, g |-> g, role |-> <<>>, est |-> <<>>])
   /\ UNCHANGED <<role, answers>>
Predict(q, b, g) == LET r == role[q] IN
   /\ know[q] # Nothing
   /\ answers' = IF PredictFails(r, g) THEN answers ELSE answers \cup {<<q, Ops, Key(know[q], est, r, b, g)>>}
   /\ hist' = Append(hist, [op |-> "predict", q |-> q, d |-> 0, b |-> b, g |-> g, role |-> <<>>, est |-> <<>>])
   /\ UNCHANGED <<role, est, fits, know>>
Sensible(q, d, g) == IF g = 0 THEN TRUE ELSE ~role[q].free /\ Classes[DataOf(g)] = Classes[d]
Next == /\ Ops < Depth
        /\ \E q \in 1..2 : \/ \E d \in Data, g \in Given : Sensible(q, d, g) /\ Fit(q, d, g)
                           \/ \E b \in Bags, g \in Given : know[q] # Nothing /\ Sensible(q, know[q][1], g) /\ Predict(q, b, g)
Spec == Init /\ [][Next]_vars
TrainedOnce == \A e \in 1..2 : fits[e] <= 1
Untouched == [][\A e \in 1..2 : est[e] # 0 => est'[e] = est[e]]_vars
PredictingTrainsNothing == [][hist'[Len(hist')].op = "predict" => est' = est /\ know' = know]_vars
(* an answer depends on the last fit of its quantifier only *)
LastFit(q, i) == CHOOSE j \in 1..i : hist[j + 1].op = "fit" /\ hist[j + 1].q = q /\ \A k \in (j + 1)..i : ~(hist[k + 1].op = "fit" /\ hist[k + 1].q = q)
OnlyLastFit == \A a \in answers : a[3][1] = hist[LastFit(a[1], a[2]) + 1].d
Export == Ops = Depth => EmitLine(ToJson(hist))
\* configurations
R(tr, te, needs, free) == [tr |-> tr, te |-> te, needs |-> needs, free |-> free]
RolesTrain == {R(tr, te, TRUE, FALSE) : tr \in {0, 1}, te \in {0, 1, 2}}
RolesTest == {R(0, te, FALSE, FALSE) : te \in {0, 1}}
RolesGiven == {R(0, 0, TRUE, FALSE)}
RolesOwn == {R(0, te, FALSE, FALSE) : te \in {1, 2}}
RolesFree == {R(0, 0, FALSE, TRUE)}
Same == <<2, 2>>
Other == <<2, 3>>
Three == <<3, 3>>
=============================================================================
