---------------------------- MODULE BinaryMethods ----------------------------
(* The three methods for two classes that work on the sorted scores of the positive class.

   DeBias   corrects the mean posterior by the normalised variance of the training posteriors.
   SORD     compares the cumulative weight of the reweighted training scores with that of the
            bag, integrated over the score axis (an earth mover's distance between samples).
   QUANT    compares the means of the scores inside equal-mass slices (quantiles).

   State: positive scores of the training examples of both classes, scores of the bag. *)
EXTENDS Simplex, TLC, Json, Emit
CONSTANTS Scores, MaxTrain, MaxTest

RECURSIVE SortS(_)
Insert(s, x) == LET k == Cardinality({i \in 1..Len(s) : RLe(s[i], x)}) IN SubSeq(s, 1, k) \o <<x>> \o SubSeq(s, k + 1, Len(s))
SortS(s) == IF s = <<>> THEN <<>> ELSE Insert(SortS(Tail(s)), s[1])
RECURSIVE SortSet(_)
SortSet(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : RLe(x, y) IN <<m>> \o SortSet(S \ {m})
Range(s) == {RNorm(s[i]) : i \in 1..Len(s)}
CountOf(s, v) == Cardinality({i \in 1..Len(s) : REq(s[i], v)})
(* share of the sample s at each of the values vs *)
Shares(s, vs) == Force([i \in 1..Len(vs) |-> RFrac(CountOf(s, vs[i]), Len(s))])
(* weight of each value in the training sample reweighted to positive prevalence p *)
Mix(hn, hp, p) == [i \in 1..Len(hn) |-> RAdd(RMul(RSub(1, p), hn[i]), RMul(p, hp[i]))]

(* cost of moving the reweighted training scores onto those of the bag *)
SordCost(vs, hn, hp, ht, p) ==
  LET w == VSub(Mix(hn, hp, p), ht) c == VPrefixSums(w)
  IN RSum([i \in 1..(Len(vs) - 1) |-> RMul(RSub(vs[i + 1], vs[i]), RAbs(c[i]))])

(* mean score inside each of the Q slices of equal mass of the values vs with weights w *)
QuantileMeans(vs, w, Q) ==
  LET c == Force(<<RNorm(0)>> \o VPrefixSums(w))
      Upto(t) == RSum([i \in 1..Len(vs) |-> RMul(vs[i], RClip(RSub(t, c[i]), 0, w[i]))])
      g == Force([j \in 1..(Q + 1) |-> Upto(RFrac(j - 1, Q))])
  IN [j \in 1..Q |-> RMul(Q, RSub(g[j + 1], g[j]))]

(* the debiased estimate; <<>> when the training posteriors do not vary *)
Debiased(post, p0, p1, bagmean) ==
  LET a == VMean([i \in 1..Len(post) |-> RSq(RSub(post[i], p1))]) IN
  IF REq(a, 0) THEN <<>> ELSE
  LET e == RClip(RAdd(p1, RDiv(RSub(bagmean, p1), RDiv(a, RMul(p0, p1)))), 0, 1) IN <<RSub(1, e), e>>
-----------------------------------------------------------------------------
VARIABLES neg, pos, bag
vars == <<neg, pos, bag>>
Init == neg = <<>> /\ pos = <<>> /\ bag = <<>>
NonDecr(s, x) == IF s = <<>> THEN TRUE ELSE RLe(s[Len(s)], x)
LearnNeg(x) == pos = <<>> /\ bag = <<>> /\ Len(neg) < MaxTrain /\ NonDecr(neg, x) /\ neg' = Append(neg, x) /\ UNCHANGED <<pos, bag>>
LearnPos(x) == neg # <<>> /\ bag = <<>> /\ Len(pos) < MaxTrain /\ NonDecr(pos, x) /\ pos' = Append(pos, x) /\ UNCHANGED <<neg, bag>>
Observe(x) == pos # <<>> /\ Len(bag) < MaxTest /\ NonDecr(bag, x) /\ bag' = Append(bag, x) /\ UNCHANGED <<neg, pos>>
Next == \E x \in Scores : LearnNeg(x) \/ LearnPos(x) \/ Observe(x)

Trained == pos # <<>> /\ bag = <<>>
Ready == pos # <<>> /\ bag # <<>>
Values == SortSet(Range(neg) \cup Range(pos) \cup Range(bag))
Ps == {"0", "1/4", "1/2", "3/4", "1"}
(* a bag that is a mixture costs nothing at its prevalence *)
SordRecovers == Trained => LET vs == Values hn == Shares(neg, vs) hp == Shares(pos, vs)
                           IN \A p \in Ps : REq(SordCost(vs, hn, hp, Mix(hn, hp, p), p), 0)
(* the cost is convex in the prevalence, so a search for a local minimum is enough *)
SordConvex == Ready => LET vs == Values hn == Shares(neg, vs) hp == Shares(pos, vs) ht == Shares(bag, vs)
                           S(p) == SordCost(vs, hn, hp, ht, p)
                       IN \A p, q \in Ps : RLe(RMul(2, S(RDiv(RAdd(p, q), 2))), RAdd(S(p), S(q)))
(* the slices keep the total, and their means increase *)
SliceMass == Trained => LET vs == Values hn == Shares(neg, vs) hp == Shares(pos, vs)
                        IN \A p \in Ps : \A Q \in {1, 2, 3, 8} :
                              LET w == Mix(hn, hp, p) m == QuantileMeans(vs, w, Q)
                              IN /\ REq(VMean(m), RDot(vs, w))
                                 /\ \A j \in 1..(Q - 1) : RLe(m[j], m[j + 1])
Export == Ready => EmitLine(ToJson([neg |-> neg, pos |-> pos, bag |-> bag]))
==============================================================================
