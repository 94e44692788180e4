------------------------------ MODULE Friedman ------------------------------
(* Friedman's method: an example is described by which class posteriors reach the
   class's training prevalence.

   State: training rows per class, bag. *)
EXTENDS Simplex, TLC, Json, Emit
CONSTANTS NC, PostRows, MaxTrain, MaxTest

Exceeds(row, tr) == [k \in 1..Len(tr) |-> IF RLe(tr[k], row[k]) THEN 1 ELSE 0]
Rate(rows, tr) == Force([k \in 1..Len(tr) |-> RFrac(Cardinality({i \in 1..Len(rows) : RLe(tr[k], rows[i][k])}), Len(rows))])
-----------------------------------------------------------------------------
VARIABLES cls, bag
vars == <<cls, bag>>
Init == cls = [k \in 1..NC |-> <<>>] /\ bag = <<>>
Learn(k, r) == bag = <<>> /\ Len(cls[k]) < MaxTrain /\ (\A j \in (k + 1)..NC : cls[j] = <<>>)
               /\ cls' = [cls EXCEPT ![k] = Append(@, r)] /\ UNCHANGED bag
Trained == \A k \in 1..NC : cls[k] # <<>>
Observe(r) == Trained /\ Len(bag) < MaxTest /\ bag' = Append(bag, r) /\ UNCHANGED cls
Next == \E r \in PostRows : Observe(r) \/ \E k \in 1..NC : Learn(k, r)
Tr == LET n == RSum([k \in 1..NC |-> Len(cls[k])]) IN [k \in 1..NC |-> RDiv(Len(cls[k]), n)]
Mx == MTranspose([k \in 1..NC |-> Rate(cls[k], Tr)])
Ready == Trained /\ bag # <<>>
(* rates lie in [0,1], and every posterior row reaches at least one training prevalence *)
Rates == Ready => /\ \A k \in 1..NC : RLe(0, Rate(bag, Tr)[k]) /\ RLe(Rate(bag, Tr)[k], 1)
                  /\ \A i \in 1..Len(bag) : RLe(1, RSum(Exceeds(bag[i], Tr)))
Recovers == Trained /\ bag = <<>> => \A q \in Grid(NC) : REq(ObjL2(Mx, MVec(Mx, q), q), 0)
Export == Ready => EmitLine(ToJson([cls |-> cls, bag |-> bag]))
=============================================================================
