-------------------------------- MODULE BagComposition --------------------------------
(* Bags of examples with a chosen class composition.

   A request fixes the labels of the data, the size of the bags and a minimum share per class.
   A bag is filled class by class: first the number of examples of every class is drawn (cut
   points of the free part of the bag), then examples are drawn with replacement.

   CountsOf(y, n, idx): what a bag with the (1-based) indexes idx contains. *)
EXTENDS Rat, FiniteSets, TLC, Json, Emit
CONSTANTS N,          \* examples in the data
          NC,         \* classes
          Size,       \* examples per bag
          Quarters    \* possible minimum shares, in quarters

CountsOf(y, n, idx) == [c \in 1..n |-> Cardinality({i \in 1..Len(idx) : y[idx[i]] = c})]
ValidIndexes(y, size, idx) == Len(idx) = size /\ \A i \in 1..Len(idx) : idx[i] \in 1..Len(y)
(* least number of examples that respects the share m of a bag of the given size, up to rounding *)
Least(m, size) == LET f == RInt(RFloor(RMul(m, size))) IN f
Feasible(min) == RLe(RSum(min), 1)
Invalid(min) == RLt(1, RSum(min)) \/ \E i \in 1..Len(min) : RLt(min[i], 0)
-----------------------------------------------------------------------------
VARIABLES y,       \* labels of the data
          min,     \* minimum share of each class, in quarters
          counts,  \* examples of each class in the bag; <<>> before they are drawn
          bag      \* indexes drawn so far
vars == <<y, min, counts, bag>>
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE s[1] + Sum(Tail(s))
MinCounts == [c \in 1..NC |-> (min[c] * Size) \div 4]
Free == Size - Sum(MinCounts)
Init == /\ y \in {s \in [1..N -> 1..NC] : \A c \in 1..NC : \E i \in 1..N : s[i] = c}
        /\ min \in [1..NC -> Quarters] /\ counts = <<>> /\ bag = <<>>
(* cut points of the free part *)
Cuts == {s \in [1..(NC - 1) -> 0..Free] : \A i \in 1..(NC - 2) : s[i] <= s[i + 1]}
DrawCounts == /\ counts = <<>> /\ Sum(min) <= 4
              /\ \E s \in Cuts : LET b == [i \in 0..NC |-> IF i = 0 THEN 0 ELSE IF i = NC THEN Free ELSE s[i]]
                                 IN counts' = [c \in 1..NC |-> MinCounts[c] + b[c] - b[c - 1]]
              /\ UNCHANGED <<y, min, bag>>
Drawn(c) == Cardinality({i \in 1..Len(bag) : y[bag[i]] = c})
DrawExample == /\ counts # <<>> /\ Len(bag) < Size
               /\ LET c == CHOOSE c \in 1..NC : Drawn(c) < counts[c] /\ \A d \in 1..(c - 1) : Drawn(d) = counts[d]
                  IN \E i \in 1..N : y[i] = c /\ bag' = Append(bag, i)
               /\ UNCHANGED <<y, min, counts>>
Next == DrawCounts \/ DrawExample
(* the composition is complete and respects the minimum *)
Composition == counts # <<>> => Sum(counts) = Size /\ \A c \in 1..NC : 4 * counts[c] > min[c] * Size - 4
(* a full bag has the composition that was drawn *)
Reported == counts # <<>> /\ Len(bag) = Size => CountsOf(y, NC, bag) = counts
(* requests are impossible exactly when the minima sum to more than one *)
Possible == Sum(min) <= 4 => Free >= 0
Export == counts = <<>> => EmitLine(ToJson([y |-> y, min |-> min]))
=============================================================================
