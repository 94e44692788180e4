------------------------------ MODULE Ensemble ------------------------------
(* Ensembles of classifiers and of quantifiers.

   n training examples with r predictions each: prediction number p is the ((p-1) \div n + 1)-th prediction of
   example (p-1) % n + 1.  Bag i is a sequence of examples; member i learns from every prediction of its examples.
   The members' answers ps[i] are combined by a strategy. *)
EXTENDS Rat, FiniteSets, TLC
RECURSIVE Times(_, _, _)
Times(bag, n, r) == IF r = 0 THEN <<>> ELSE Times(bag, n, r - 1) \o [k \in 1..Len(bag) |-> bag[k] + (r - 1) * n]
(* number of occurrences of every element of a sequence *)
Counted(s) == LET R == {s[k] : k \in 1..Len(s)} IN [x \in R |-> Cardinality({k \in 1..Len(s) : s[k] = x})]
SameElements(s, t) == Len(s) = Len(t) /\ Counted(s) = Counted(t)
Example(p, n) == ((p - 1) % n) + 1
(* what member i must learn: pairs of true class and prediction; shape "one": a prediction per position, "each": one per member *)
Lesson(bag, i, y, T, shape, n, r) == LET pos == Times(bag, n, r) IN
   [k \in 1..Len(pos) |-> <<y[Example(pos[k], n)], IF shape = "each" THEN T[pos[k]][i] ELSE T[pos[k]]>>]
TestOf(i, T, shape) == [k \in 1..Len(T) |-> IF shape = "each" THEN T[k][i] ELSE T[k]]

(* ------------------------------------------------------------------ combination *)
Col(ps, c) == [i \in 1..Len(ps) |-> ps[i][c]]
Mean(ps) == [c \in 1..Len(ps[1]) |-> VMean(Col(ps, c))]
Ordered(v, k) == CHOOSE x \in {v[i] : i \in 1..Len(v)} :
                   /\ Cardinality({i \in 1..Len(v) : RLt(v[i], x)}) < k
                   /\ Cardinality({i \in 1..Len(v) : RLe(v[i], x)}) >= k
Median1(v) == RDiv(RAdd(Ordered(v, (Len(v) + 1) \div 2), Ordered(v, (Len(v) \div 2) + 1)), 2)
Median(ps) == LET m == [c \in 1..Len(ps[1]) |-> Median1(Col(ps, c))] IN IF RLt(0, RSum(m)) THEN m ELSE Mean(ps)
Pick(ps, S) == LET ix == SelectSeq([i \in 1..Len(ps) |-> i], LAMBDA i : i \in S) IN [k \in 1..Len(ix) |-> ps[ix[k]]]
(* how many members a fraction f of n members is: to the nearest integer, ties to either side, at least one *)
Share(n, f) == {IF k < 1 THEN 1 ELSE k : k \in {j \in 0..n : RLe(RAbs(RSub(j, RMul(n, f))), "500000000001/1000000000000")}}
Eps == "1/1000000000"
(* the possible selections of members by increasing d *)
Selections(d, f) == {S \in SUBSET (1..Len(d)) : Cardinality(S) \in Share(Len(d), f) /\
                        \A i \in S : \A j \in (1..Len(d)) \ S : RLe(d[i], RAdd(d[j], Eps))}
FromMean(ps) == LET m == Mean(ps) IN [i \in 1..Len(ps) |-> VMean(VAbs(VSub(m, ps[i])))]
DistanceOf(metric, a, b) ==
   LET d == VAbs(VSub(a, b)) IN
   CASE metric = "cityblock" -> RSum(d)
     [] metric = "euclidean" -> RSqrt(RSum([i \in 1..Len(d) |-> RSq(d[i])]))
     [] metric = "sqeuclidean" -> RSum([i \in 1..Len(d) |-> RSq(d[i])])
     [] metric = "chebyshev" -> CHOOSE x \in {d[i] : i \in 1..Len(d)} : \A i \in 1..Len(d) : RLe(d[i], x)
(* the answers the strategies allow; far: distances of the members' bags to the test bag *)
Allowed(strategy, ps, f, far) ==
   CASE strategy = "mean" -> {VNormalise(Mean(ps))}
     [] strategy = "median" -> {VNormalise(Median(ps))}
     [] strategy = "prevalence_similarity" -> {VNormalise(Mean(Pick(ps, S))) : S \in Selections(FromMean(ps), f)}
     [] strategy = "distribution_similarity" -> {VNormalise(Mean(Pick(ps, S))) : S \in Selections(far, f)}
Strategies == <<"mean", "median", "prevalence_similarity", "distribution_similarity">>
=============================================================================
