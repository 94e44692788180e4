--------------------------- MODULE MCPriorShift ---------------------------
(* Training sets of examples that take one of Values values, and requests with bags drawn from them by prior shift. *)
EXTENDS PriorShift, TLC, Json, Emit
CONSTANTS N, Values, PerClass, Factors, Den, Depth, Judge
VARIABLES m, x, k, hist
vars == <<m, x, k, hist>>
(* m[c] examples of class c; x[c] how many of them have each value *)
Splits(t) == {s \in [1..Values -> 0..t] : REq(RSum(s), t)}
Tables == {z \in [1..N -> UNION {Splits(t) : t \in 1..PerClass}] : TRUE}
Size(z) == [c \in 1..N |-> RInt(RSum(z[c]))]
Init == /\ x = <<>> /\ m = <<>> /\ k = <<>> /\ hist = <<>>
Bags == {f \in [1..N -> Factors] : \E c \in 1..N : f[c] > 0}
Fit == /\ (IF Judge THEN \E z \in Tables : x' = z /\ m' = Size(z) ELSE x' = <<>> /\ m' \in [1..N -> 1..PerClass])
       /\ k' = <<>>
       /\ hist' = Append(hist, [op |-> "fit", m |-> m', k |-> <<>>])
Predict == /\ k' \in Bags /\ UNCHANGED <<m, x>>
           /\ hist' = Append(hist, [op |-> "predict", m |-> <<>>, k |-> k'])
Next == Len(hist) < Depth /\ IF m = <<>> THEN Fit ELSE IF Len(hist) % 4 = 0 THEN Fit ELSE Predict
Describe == [c \in 1..N |-> [v \in 1..Values |-> RFrac(x[c][v], m[c])]]
OfBag == LET tot == RSum([c \in 1..N |-> m[c] * k[c]]) IN
  [v \in 1..Values |-> RDiv(RSum([c \in 1..N |-> x[c][v] * k[c]]), tot)]
Grid == {p \in [1..N -> {RFrac(i, Den) : i \in 0..Den}] : REq(RSum(p), 1)}
Same(u, v) == \A i \in 1..Len(u) : REq(u[i], v[i])
Cum(v) == VPrefixSums(v)
(* distances between the values 1, 2, ... and the energy of p against the bag *)
Dist(u, v) == IF u < v THEN v - u ELSE u - v
MeanDist(a, b) == RSum([i \in 1..Len(a) |-> RSum([j \in 1..Len(b) |-> RMul(RMul(a[i], b[j]), Dist(i, j))])])
Energy(p) == LET mx == Mixture(Describe, p) b == OfBag IN RSub(RSub(RMul(2, MeanDist(mx, b)), MeanDist(mx, mx)), MeanDist(b, b))
Move(p) == RSum(VAbs(VSub(Cum(Mixture(Describe, p)), Cum(OfBag))))
Judged == Judge /\ k # <<>>
TruthExplains == Judged => Same(Mixture(Describe, True(m, k)), OfBag)
TruthHasNoEnergy == Judged => REq(Energy(True(m, k)), 0) /\ REq(Move(True(m, k)), 0)
NothingElseDoes == Judged => IF REq(Independence(Describe), 0) THEN TRUE ELSE
  \A p \in Grid : IF Same(p, True(m, k)) THEN TRUE ELSE ~Same(Mixture(Describe, p), OfBag) /\ RLt(0, Energy(p)) /\ RLt(0, Move(p))
View == <<m, x, k, Len(hist) % 4>>
Export == Len(hist) = Depth => EmitLine(ToJson(hist))
=============================================================================
