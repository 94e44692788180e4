-------------------------- MODULE TraceRegression --------------------------
(* Events
   fit      e.rows descriptor values of the training examples, e.y classes, e.n; e.strat, e.nb, e.probs; e.bags indexes of
            the bags generated (e.cuts inner cut points); e.lessons[k] what regressor k was fitted with: rows X and targets Y
   predict  e.rows, e.y, e.n, e.bags as above, e.cuts; e.trows descriptor values of the test bag, e.asks[k] the rows
            regressor k was asked with and e.raw[k] what it answered (regressors in the order of e.lessons); e.out
   default  the library's own regressor: e.out
   e.template: the regressor given to the constructor is still unfitted *)
EXTENDS TraceBase, Regression
TStart == 0
TAfter(s, e) == 0
Tol == "1/1000000000"
MClose(A, B) == Len(A) = Len(B) /\ \A i \in 1..Len(A) : VClose(A[i], B[i], Tol)
Perms(k) == {f \in [1..k -> 1..k] : \A i, j \in 1..k : i # j => f[i] # f[j]}
(* f[k]: the class regressor k is for *)
Roles(n) == IF n = 2 THEN {<<2>>} ELSE Perms(n)
Fits(e, f) == LET dy == Force([b \in 1..Len(e.bags) |-> Targets(e.y, e.bags[b], e.n)]) IN
   \A k \in 1..Len(e.lessons) : VClose(e.lessons[k].Y, MCol(dy, f[k]), Tol)
Reorder(raw, f, n) == IF n = 2 THEN raw ELSE [c \in 1..n |-> raw[CHOOSE k \in 1..n : f[k] = c]]
TFailing(s, e) ==
  IF e.exc # "" THEN {"answers"} ELSE
  CASE e.ev = "default" -> If(Len(e.out) = e.n /\ IsDistribution(e.out, "1/100000"), "distribution")
    [] OTHER ->
     LET nd == Len(e.rows[1]) IN
     IF Len(e.cuts) # nd \/ (\E d \in 1..nd : Len(e.cuts[d]) # e.nb - 1 \/ ~VAllNum(e.cuts[d])) THEN {"cut-points"}
     ELSE IF Len(e.lessons) # Regressors(e.n) THEN {"one-regressor-per-class"}
     ELSE CASE e.ev = "fit" ->
            LET dx == Force([b \in 1..Len(e.bags) |-> RowOf(e.rows, e.bags[b], e.cuts)]) IN
            If(\A d \in 1..nd : LET v == Force(MCol(e.rows, d)) IN
                  H!CutsOk(e.strat, v, e.y, e.n, e.nb, IF e.probs THEN 0 ELSE H!MinV(v), IF e.probs THEN 1 ELSE H!MaxV(v), e.cuts[d]), "cut-points")
            \cup If(\A k \in 1..Len(e.lessons) : MClose(e.lessons[k].X, dx), "one-row-per-bag-of-bin-fractions")
            \cup If(\E f \in Roles(e.n) : Fits(e, f), "targets-are-prevalences")
            \cup If(e.template, "template-unfitted")
            \cup If(e.classes, "classes-known")
       [] e.ev = "predict" ->
            LET t == H!Describe(e.trows, e.cuts, FALSE) IN
            IF Len(e.out) # e.n \/ ~VAllNum(e.out) THEN {"one-value-per-class"}
            ELSE If(\A k \in 1..Len(e.asks) : MClose(e.asks[k], <<t>>), "same-description-as-in-training")
                 \cup If(Len(e.raw) = Len(e.lessons) /\ \E f \in Roles(e.n) : Fits(e, f) /\ Allowed(Reorder(e.raw, f, e.n), e.n, e.out, Tol), "clipped-and-normalised")
       [] OTHER -> {"known-event"}
=============================================================================
