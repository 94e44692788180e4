------------------------------ MODULE Ordinal ------------------------------
(* Ordinal quantifiers.  Classes 1..n are ordered; distributions over them are compared
   through their cumulative sums (the earth mover's distance between neighbours at
   distance one is the L1 distance of the cumulative sums).

   Adjusted counts: the answer p minimises EMD(observed, sum_t p[t] * rate[t]).
   Scores: a posterior row is turned into a position in [1, n]; positions are counted
   in nb bins between consecutive classes.

   Model: training examples <<true class, position bin>> and test positions arrive one by
   one (position bins are classes for the adjusted counts). *)
EXTENDS Simplex, TLC, Json, Emit
CONSTANTS K, B, MaxTrain, MaxTest

Cumulative(M) == LET C == [t \in 1..Len(M[1]) |-> VPrefixSums(MCol(M, t))] IN MTranspose(C)
EMDOf(v, w) == RSum(VAbs(VPrefixSums(VSub(v, w))))
ObjEMD(M, t, q) == EMDOf(t, MVec(M, q))

(* ---- positions *)
Expected(row) == RSum([j \in 1..Len(row) |-> RMul(j, row[j])])
Position(row, n) == RClip(Expected(row), 1, n)
(* a leaf of the DAG holds two consecutive classes: the position between them *)
Leaf(row) == LET n == Len(row)
                 f == CHOOSE j \in 1..n : ~REq(row[j], 0) /\ \A k \in 1..(j - 1) : REq(row[k], 0)
             IN IF f = n THEN RNorm(n) ELSE RAdd(f, row[f + 1])
IsLeaf(row) == \E j \in 1..(Len(row) - 1) : \A k \in 1..Len(row) : k \in {j, j + 1} \/ REq(row[k], 0)
(* nb bins between consecutive classes, the last one closed *)
PositionBin(s, n, nb) == LET b == 1 + RInt(RFloor(RMul(RSub(s, 1), nb))) IN IF b > nb * (n - 1) THEN nb * (n - 1) ELSE b
Pdf(bins, total) == [b \in 1..total |-> RFrac(Cardinality({k \in 1..Len(bins) : bins[k] = b}), Len(bins))]
-----------------------------------------------------------------------------
VARIABLES table, test
Zero == [b \in 1..B |-> 0]
Total(r) == RInt(RSum(r))
Init == table = [t \in 1..K |-> Zero] /\ test = Zero
Learn(t, b) == Total(table[t]) < MaxTrain /\ test = Zero /\ table' = [table EXCEPT ![t][b] = @ + 1] /\ UNCHANGED test
Trained == \A t \in 1..K : Total(table[t]) > 0
Observe(b) == Trained /\ Total(test) < MaxTest /\ test' = [test EXCEPT ![b] = @ + 1] /\ UNCHANGED table
Next == \E b \in 1..B : Observe(b) \/ \E t \in 1..K : Learn(t, b)
Ready == Trained /\ Total(test) > 0
Rate == [t \in 1..K |-> [b \in 1..B |-> RDiv(table[t][b], Total(table[t]))]]
Mix == MTranspose(Rate)
Obs == [b \in 1..B |-> RFrac(test[b], Total(test))]
(* a bag that is a mixture of the classes is matched exactly *)
Recovers == Trained /\ test = Zero => \A q \in Grid(K) : REq(ObjEMD(Mix, MVec(Mix, q), q), 0)
(* cumulated rates explain cumulated observations: the two readings of the distance agree *)
CumulatedAlike == Ready => \A q \in Grid(K) : REq(ObjEMD(Mix, Obs, q), ObjL1(Cumulative(Mix), VPrefixSums(Obs), q))
(* moving everything across the whole order costs the most *)
Bounded == Ready => \A q \in Grid(K) : RLe(0, ObjEMD(Mix, Obs, q)) /\ RLe(ObjEMD(Mix, Obs, q), B - 1)
(* a perfect classifier's counts are answered as they are *)
Perfect == Ready /\ B = K /\ (\A t \in 1..K : Rate[t][t] = "1") => REq(ObjEMD(Mix, Obs, Obs), 0)
Export == Ready /\ Total(test) = MaxTest => EmitLine(ToJson([table |-> table, test |-> test]))
=============================================================================
