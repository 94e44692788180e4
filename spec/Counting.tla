------------------------------ MODULE Counting ------------------------------
(* Counting quantifiers (CC, PCC) and the conversion of posteriors to crisp
   predictions.  Classes are the indexes 1..K of the sorted class labels.

   The specification consumes a bag example by example, the way a counter would:
   cnt[k] examples were predicted as class k, mass[k] is the posterior mass of k.
   The properties relate these to definitions over the whole bag, so they show
   that counting is independent of the order of the bag and is a distribution. *)
EXTENDS Rat, FiniteSets, TLC, Json, Emit

CONSTANTS K,      \* number of classes
          Rows,   \* posterior rows an example may have
          MaxN    \* largest bag explored

(* the first class with the highest posterior *)
ArgMax(row) == CHOOSE k \in 1..Len(row) :
                 /\ \A j \in 1..Len(row) : RLe(row[j], row[k])
                 /\ \A j \in 1..(k - 1) : RLt(row[j], row[k])
(* binary scores: the second class from 1/2 upwards *)
Thresholded(p) == IF RLe("1/2", p) THEN 2 ELSE 1

(* whole-bag definitions *)
CountOf(preds, k) == Cardinality({i \in 1..Len(preds) : preds[i] = k})
ClassifyCount(preds, n) == [k \in 1..n |-> RFrac(CountOf(preds, k), Len(preds))]
MeanPosterior(rows)     == [k \in 1..Len(rows[1]) |-> VMean(MCol(rows, k))]

VARIABLES bag, cnt, mass
vars == <<bag, cnt, mass>>

Init == bag = <<>> /\ cnt = [k \in 1..K |-> 0] /\ mass = [k \in 1..K |-> "0"]

Arrive(r) == /\ Len(bag) < MaxN
             /\ bag' = Append(bag, r)
             /\ cnt' = [cnt EXCEPT ![ArgMax(r)] = @ + 1]
             /\ mass' = [k \in 1..K |-> RAdd(mass[k], r[k])]
Next == \E r \in Rows : Arrive(r)

CC  == [k \in 1..K |-> RFrac(cnt[k], Len(bag))]
PCC == [k \in 1..K |-> RDiv(mass[k], Len(bag))]

Preds == [i \in 1..Len(bag) |-> ArgMax(bag[i])]
CountsAreShares == bag # <<>> => CC = ClassifyCount(Preds, K)
MassesAreMeans  == bag # <<>> => PCC = MeanPosterior(bag)
Distributions   == bag # <<>> => IsDistribution(CC, 0) /\ IsDistribution(PCC, 0)
OrderFree       == bag # <<>> => LET r == [i \in 1..Len(bag) |-> bag[Len(bag) + 1 - i]]
                                 IN MeanPosterior(r) = PCC
(* crisp predictions agree with thresholding in two-class problems, except that
   an exact tie goes to the first class of a pair of columns *)
BinaryAgrees == K = 2 => \A i \in 1..Len(bag) :
                   REq(bag[i][2], "1/2") \/ ArgMax(bag[i]) = Thresholded(bag[i][2])

Export == bag # <<>> => EmitLine(ToJson([k |-> K, bag |-> bag]))
=============================================================================
