----------------------------- MODULE Neighbours -----------------------------
(* Weighted nearest-neighbour classification and quantification (PWK, PWKQuantifier).

   Examples pts[i] of class y[i]; a neighbour of class c weighs one minus the frequency of c in the training set.
   Examples at the same distance may be taken in any order. *)
EXTENDS Rat, FiniteSets
(* monotone function of the distance between a and b: sums of absolute differences, of squares, or the maximum *)
Far(metric, a, b) == LET d == VAbs(VSub(a, b)) IN
   CASE metric = 1 -> RSum(d)
     [] metric = 2 -> RDot(d, d)
     [] metric = 3 -> RSum([i \in 1..Len(d) |-> RMul(d[i], RSq(d[i]))])
     [] OTHER -> CHOOSE x \in {d[i] : i \in 1..Len(d)} : \A i \in 1..Len(d) : RLe(d[i], x)
Weight(y, c) == RSub(1, RFrac(Cardinality({i \in 1..Len(y) : y[i] = c}), Len(y)))
(* the possible sets of the k nearest examples *)
Nearest(d, k) ==
  LET sure == {i \in 1..Len(d) : Cardinality({j \in 1..Len(d) : RLe(d[j], d[i])}) <= k}
      tied == {i \in (1..Len(d)) \ sure : Cardinality({j \in 1..Len(d) : RLt(d[j], d[i])}) < k}
  IN {sure \cup S : S \in {T \in SUBSET tied : Cardinality(T) = k - Cardinality(sure)}}
Totals(S, y, n) == Force([c \in 1..n |-> RMul(Weight(y, c), Cardinality({i \in S : y[i] = c}))])
Share(t) == VNormalise(t)
Tiny == "1/1000000000000"
(* the classes with the largest total *)
Winners(t) == {c \in 1..Len(t) : \A j \in 1..Len(t) : RLe(t[j], RAdd(t[c], Tiny))}
Distances(metric, pts, x) == Force([i \in 1..Len(pts) |-> Far(metric, pts[i], x)])
Classes(metric, pts, y, n, k, x) == UNION {Winners(Totals(S, y, n)) : S \in Nearest(Distances(metric, pts, x), k)}
Rows(metric, pts, y, n, k, x) == {Share(Totals(S, y, n)) : S \in Nearest(Distances(metric, pts, x), k)}
=============================================================================
