------------------------------ MODULE Histogram ------------------------------
(* Distribution matching with histograms (DFy, HDy, MMy, DFX, HDX).

   A descriptor (a feature, or the posterior of a class) is cut into bins; each
   class and the bag are described by the fraction of examples per bin (cumulated
   for CDFs); the answer is the mixture closest to the bag.

   State of the model: one descriptor with inner cut points Cuts, the counts per
   bin of each class and of the bag. *)
EXTENDS Simplex, NormalQuantiles, TLC, Json, Emit

CONSTANTS NC, Cuts, Values, MaxTrain, MaxTest

(* inner cut points c: bin 1 is below c[1], bin i is [c[i-1], c[i]), the last from c[Len(c)] on *)
Bin(x, c) == 1 + Cardinality({i \in 1..Len(c) : RLe(c[i], x)})
Count(v, c, b) == Cardinality({i \in 1..Len(v) : Bin(v[i], c) = b})
Fractions(v, c) == LET bs == Force([i \in 1..Len(v) |-> Bin(v[i], c)])
                   IN Force([b \in 1..(Len(c) + 1) |-> RFrac(Cardinality({i \in 1..Len(v) : bs[i] = b}), Len(v))])
Shape(f, cdf) == IF cdf THEN VPrefixSums(f) ELSE f
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))
(* description of the examples rows over several descriptors with inner cuts cs *)
Describe(rows, cs, cdf) == Force(Flat([d \in 1..Len(cs) |-> Shape(Fractions(MCol(rows, d), cs[d]), cdf)]))

(* ------------------------------------------------------------ cut points *)
MinV(v) == CHOOSE x \in {v[i] : i \in 1..Len(v)} : \A i \in 1..Len(v) : RLe(x, v[i])
MaxV(v) == CHOOSE x \in {v[i] : i \in 1..Len(v)} : \A i \in 1..Len(v) : RLe(v[i], x)
RECURSIVE Width(_, _, _)
Width(lo, hi, nb) == IF REq(lo, hi) THEN Width(RSub(lo, "1/2"), RAdd(lo, "1/2"), nb)
                     ELSE [i \in 1..(nb - 1) |-> RAdd(lo, RMul(RFrac(i, nb), RSub(hi, lo)))]
(* order statistic: the k-th smallest *)
Kth(v, k) == CHOOSE x \in {v[i] : i \in 1..Len(v)} :
               /\ Cardinality({i \in 1..Len(v) : RLt(v[i], x)}) < k
               /\ Cardinality({i \in 1..Len(v) : RLe(v[i], x)}) >= k
Between(v, k) == LET j == IF k < 1 THEN 1 ELSE IF k > Len(v) - 1 THEN Len(v) - 1 ELSE k
                 IN RDiv(RAdd(Kth(v, j), Kth(v, j + 1)), 2)
(* i examples of n bins: to the nearest integer, ties to either side *)
Nearest(i, n, m) == LET q == (m * i) \div n  r == (m * i) % n IN
                    IF 2 * r < n THEN {q} ELSE IF 2 * r > n THEN {q + 1} ELSE {q, q + 1}
EqualCount(v, nb, i) == {Between(v, k) : k \in Nearest(i, nb, Len(v))}
Sub(v, y, c) == LET ix == SelectSeq([i \in 1..Len(y) |-> i], LAMBDA i : y[i] = c) IN [i \in 1..Len(ix) |-> v[ix[i]]]
Var(v) == LET m == VMean(v) IN VMean([i \in 1..Len(v) |-> RSq(RSub(v[i], m))])
(* average of the classes' means and deviations *)
BinormalMu(v, y, n) == VMean([c \in 1..n |-> VMean(Sub(v, y, c))])
BinormalSd(v, y, n) == VMean([c \in 1..n |-> RSqrt(Var(Sub(v, y, c)))])
(* mean and deviation with every class weighing the same *)
NormalSd(v, y, n) == LET mu == BinormalMu(v, y, n) IN
                     RSqrt(VMean([c \in 1..n |-> LET s == Sub(v, y, c) IN VMean([i \in 1..Len(s) |-> RSq(RSub(s[i], mu))])]))
Near(a, b) == RNum(a) /\ RLe(RAbs(RSub(a, b)), RMul("1/1000000000", RAdd(1, RAbs(b))))
(* are c the nb-1 inner cut points of descriptor values v with classes y? *)
CutsOk(strat, v, y, n, nb, lo, hi, c) ==
  /\ Len(c) = nb - 1 /\ VAllNum(c)
  /\ CASE strat = "equal_width" -> LET w == Width(lo, hi, nb) IN \A i \in 1..(nb - 1) : Near(c[i], w[i])
       [] strat = "equal_count" -> \A i \in 1..(nb - 1) : \E w \in EqualCount(v, nb, i) : Near(c[i], w)
       [] OTHER -> LET mu == BinormalMu(v, y, n)
                       sd == IF strat = "binormal" THEN BinormalSd(v, y, n) ELSE NormalSd(v, y, n)
                   IN \A i \in 1..(nb - 1) : RClose(c[i], RAdd(mu, RMul(sd, PhiInv(i, nb))), RMul("1/10000000", RAdd(RAdd(1, RAbs(mu)), sd)))
-----------------------------------------------------------------------------
VARIABLES hist, bag
vars == <<hist, bag>>
NB == Len(Cuts) + 1
Zero == [b \in 1..NB |-> 0]
Init == hist = [c \in 1..NC |-> Zero] /\ bag = Zero
Size(h) == RInt(RSum(h))
Learn(c, x) == /\ Size(bag) = 0 /\ Size(hist[c]) < MaxTrain
               /\ hist' = [hist EXCEPT ![c][Bin(x, Cuts)] = @ + 1] /\ UNCHANGED bag
Trained == \A c \in 1..NC : Size(hist[c]) > 0
Observe(x) == /\ Trained /\ Size(bag) < MaxTest
              /\ bag' = [bag EXCEPT ![Bin(x, Cuts)] = @ + 1] /\ UNCHANGED hist
Next == \E x \in Values : Observe(x) \/ \E c \in 1..NC : Learn(c, x)
Frac(h) == LET n == Size(h) IN [b \in 1..NB |-> RFrac(h[b], n)]
Ready == Trained /\ Size(bag) > 0
Mix(cdf) == MTranspose([c \in 1..NC |-> Shape(Frac(hist[c]), cdf)])

(* every value falls into exactly one bin, whose cut points enclose it *)
OneBin == \A x \in Values : LET b == Bin(x, Cuts) IN
             /\ b \in 1..NB
             /\ (b > 1 => RLe(Cuts[b - 1], x)) /\ (b < NB => RLt(x, Cuts[b]))
Descriptions == Ready => /\ IsDistribution(Frac(bag), 0)
                         /\ REq(Shape(Frac(bag), TRUE)[NB], 1)
                         /\ \A i \in 1..(NB - 1) : RLe(Shape(Frac(bag), TRUE)[i], Shape(Frac(bag), TRUE)[i + 1])
(* the description of a mixture of classes is the mixture of their descriptions,
   and is matched exactly in every distance *)
Recovers == Trained /\ Size(bag) = 0 => \A q \in Grid(NC) : \A cdf \in BOOLEAN : \A dist \in {"L1", "L2"} :
              LET t == MVec(Mix(cdf), q) IN REq(ObjOf(dist, Mix(cdf), t, q), 0)
RecoversHD == Trained /\ Size(bag) = 0 => \A q \in Grid(NC) : RLe(RAbs(ObjHD(Mix(FALSE), MVec(Mix(FALSE), q), q)), "1/1000000000000000000000000000000")
Export == Ready => EmitLine(ToJson([hist |-> hist, bag |-> bag]))
=============================================================================
