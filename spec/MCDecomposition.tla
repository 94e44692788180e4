--------------------------- MODULE MCDecomposition ---------------------------
(* All vectors of binary answers in multiples of 1/D, built one split at a time. *)
EXTENDS Decomposition, Json, Emit
CONSTANTS Splits, D
VARIABLES c
Init == c = <<>>
Next == Len(c) < Splits /\ \E x \in 0..D : c' = Append(c, RFrac(x, D))
n == Len(c) + 1
Zeros == [i \in 1..Len(c) |-> 0]
AllTrees == BestTrees(Zeros, 1, Len(c))
Agree == <<>> # c /\ Ascending(c) /\ \A i \in 1..Len(c) : c[i] \in {"0", "1"}
Class == CHOOSE j \in 1..n : (j = n \/ c[j] = "1") /\ (j = 1 \/ c[j - 1] = "0")
Envelopes == c # <<>> => /\ Ascending(Upper(c)) /\ Ascending(Lower(c)) /\ Ascending(Repaired(c))
                         /\ \A i \in 1..Len(c) : RLe(Lower(c)[i], c[i]) /\ RLe(c[i], Upper(c)[i])
                         /\ (Ascending(c) => VClose(Repaired(c), c, 0))
                         /\ VClose(Repaired(Repaired(c)), Repaired(c), 0)
Distributions == c # <<>> => /\ IsDistribution(Monotone(c), 0)
                             /\ \A t \in AllTrees : IsDistribution(TreeRow(t, c), 0)
FrankHallRange == c # <<>> => \A j \in 1..n : RLe(0, FrankHall(c)[j]) /\ RLe(FrankHall(c)[j], 1)
(* the first and last class are judged by their own model only under every rule that does not rearrange *)
Ends == c # <<>> /\ Ascending(c) => /\ Monotone(c)[1] = FrankHall(c)[1] /\ Monotone(c)[n] = FrankHall(c)[n]
(* models that agree on one class give all rules that class *)
Unanimous == Agree => /\ Monotone(c) = Indicator(Class, n) /\ FrankHall(c) = Indicator(Class, n)
                      /\ \A t \in AllTrees : TreeRow(t, c) = Indicator(Class, n)
(* two classes: all rules are the same *)
TwoClasses == Len(c) = 1 => Monotone(c) = FrankHall(c) /\ \A t \in AllTrees : TreeRow(t, c) = FrankHall(c)
Export == Len(c) = Splits => EmitLine(ToJson([c |-> c]))
=============================================================================
