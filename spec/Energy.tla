------------------------------- MODULE Energy -------------------------------
(* Energy-distance quantification.

   cls[k] is the sequence of training examples of class k, bag the test bag; an
   example is a vector.  K and Kt are mean pairwise distances; the answer minimises
   the energy distance between the bag and the mixture of the classes. *)
EXTENDS Simplex, TLC, Json, Emit

CONSTANTS NC, Points, MaxTrain, MaxTest

Manhattan(x, y) == RSum(VAbs(VSub(x, y)))
SqEuclid(x, y)  == LET d == VSub(x, y) IN RDot(d, d)
Euclid(x, y)    == RSqrt(SqEuclid(x, y))
EmdRow(x, y)    == RSum(VAbs(VPrefixSums(VSub(x, y))))
Dist(name, x, y) == CASE name = "manhattan" -> Manhattan(x, y)
                      [] name = "euclidean" -> Euclid(x, y)
                      [] name = "sqeuclidean" -> SqEuclid(x, y)
                      [] name = "emd" -> EmdRow(x, y)
MeanDist(name, A, B) == RDiv(RSum([i \in 1..Len(A) |-> RSum([j \in 1..Len(B) |-> Dist(name, A[i], B[j])])]), Len(A) * Len(B))
Pairwise(name, C) == Force([i \in 1..Len(C) |-> [j \in 1..Len(C) |-> MeanDist(name, C[i], C[j])]])
ToBag(name, C, t) == Force([i \in 1..Len(C) |-> MeanDist(name, C[i], t)])
(* energy distance up to the constant within-bag term *)
EnergyOf(K, Kt, p) == RSub(RMul(2, RDot(p, Kt)), RDot(p, MVec(K, p)))
(* the minimiser up to tol times the scale of the distances *)
Scale(K, Kt) == RAdd(1, RAdd(RSum(Kt), RSum([i \in 1..Len(K) |-> RSum(K[i])])))
IsEnergyMinimiser(K, Kt, p, tol) == LET O(q) == EnergyOf(K, Kt, q) IN IsMinimiser(O, p, RMul(tol, Scale(K, Kt)))

(* joint ranks, ties sharing their mean rank *)
Rank(v, i) == LET less == Cardinality({j \in 1..Len(v) : RLt(v[j], v[i])})
                  same == Cardinality({j \in 1..Len(v) : REq(v[j], v[i])})
              IN RAdd(less, RFrac(same + 1, 2))
Ranks(rows) == Force([i \in 1..Len(rows) |-> [k \in 1..Len(rows[1]) |-> Rank(MCol(rows, k), i)]])
-----------------------------------------------------------------------------
VARIABLES cls, bag
vars == <<cls, bag>>
Init == cls = [k \in 1..NC |-> <<>>] /\ bag = <<>>
Leq(p, q) == IF p[1] # q[1] THEN p[1] < q[1] ELSE IF Len(p) = 1 THEN TRUE ELSE p[2] <= q[2]
(* examples arrive in sorted order per class: their order does not matter *)
Learn(k, x) == /\ bag = <<>> /\ Len(cls[k]) < MaxTrain
               /\ IF cls[k] = <<>> THEN TRUE ELSE Leq(cls[k][Len(cls[k])], x)
               /\ \A j \in 1..(k - 1) : cls[j] # <<>>
               /\ \A j \in (k + 1)..NC : cls[j] = <<>>
               /\ cls' = [cls EXCEPT ![k] = Append(@, x)] /\ UNCHANGED bag
Trained == \A k \in 1..NC : cls[k] # <<>>
Observe(x) == /\ Trained /\ Len(bag) < MaxTest
              /\ IF bag = <<>> THEN TRUE ELSE Leq(bag[Len(bag)], x)
              /\ bag' = Append(bag, x) /\ UNCHANGED cls
Next == \E x \in Points : Observe(x) \/ \E k \in 1..NC : Learn(k, x)

Ready == Trained /\ bag # <<>>
Names == {"manhattan", "sqeuclidean"}
Mid(p, q) == VScale("1/2", VAdd(p, q))
Vertices == {[i \in 1..NC |-> IF i = v THEN "1" ELSE "0"] : v \in 1..NC}
(* the energy distance, with its within-bag term, is never negative on distributions and is convex *)
NonNegative == Ready => \A nm \in Names : LET K == Pairwise(nm, cls) Kt == ToBag(nm, cls, bag) w == MeanDist(nm, bag, bag) IN
                  \A p \in Grid(NC) : RLe(w, EnergyOf(K, Kt, p))
Convex == Ready => \A nm \in Names : LET K == Pairwise(nm, cls) Kt == ToBag(nm, cls, bag) IN
             \A p, q \in Vertices : RLe(RMul(2, EnergyOf(K, Kt, Mid(p, q))), RAdd(EnergyOf(K, Kt, p), EnergyOf(K, Kt, q)))
(* the bag that repeats a class is matched by that class alone *)
Recovers == Ready => \A nm \in Names : \A k \in 1..NC :
              LET K == Pairwise(nm, cls) Kt == ToBag(nm, cls, cls[k])
              IN \A p \in Grid(NC) : RLe(EnergyOf(K, Kt, [i \in 1..NC |-> IF i = k THEN 1 ELSE 0]), EnergyOf(K, Kt, p))
Export == Ready => EmitLine(ToJson([cls |-> cls, bag |-> bag]))
=============================================================================
