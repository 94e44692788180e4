------------------------------ MODULE Symmetry ------------------------------
(* Transformations of a quantification problem that leave its answer alone, or permute it.

   A problem: training examples [y: class, f: what the classifier says], and a bag of what it says.  Arrangements of the
   training set and of the bag, and other names in the same order, change nothing; exchanging class identities (in the
   labels and in what the classifier says) exchanges the prevalences. *)
EXTENDS Rat, FiniteSets, SequencesExt
Swap(s, i, j) == [k \in 1..Len(s) |-> IF k = i THEN s[j] ELSE IF k = j THEN s[i] ELSE s[k]]
Turn(s) == [k \in 1..Len(s) |-> s[Len(s) + 1 - k]]
InOrder(s, Key(_)) == SortSeq(s, LAMBDA a, b : Key(a) < Key(b))
(* the transposition of classes i and j *)
Other(c, i, j) == IF c = i THEN j ELSE IF c = j THEN i ELSE c
ExchangeTrain(t, i, j) == [k \in 1..Len(t) |-> [y |-> Other(t[k].y, i, j), f |-> Other(t[k].f, i, j)]]
ExchangeBag(b, i, j) == [k \in 1..Len(b) |-> Other(b[k], i, j)]
(* answers: where the prevalence of class c is found after the exchanges so far *)
Moved(sigma, p) == [c \in 1..Len(p) |-> p[CHOOSE d \in 1..Len(p) : sigma[d] = c]]
Identity(n) == [c \in 1..n |-> c]
Exchange(sigma, i, j) == [c \in 1..Len(sigma) |-> Other(sigma[c], i, j)]

(* abstract quantifiers *)
Count(t, y, f) == Cardinality({k \in 1..Len(t) : t[k].y = y /\ t[k].f = f})
OfClass(t, y) == Cardinality({k \in 1..Len(t) : t[k].y = y})
Share(b, n) == Force([c \in 1..n |-> RFrac(Cardinality({k \in 1..Len(b) : b[k] = c}), Len(b))])
Rates(t, n) == Force([y \in 1..n |-> [f \in 1..n |-> RFrac(Count(t, y, f), OfClass(t, y))]])
Explained(R, p) == [f \in 1..Len(p) |-> RSum([y \in 1..Len(p) |-> RMul(p[y], R[y][f])])]
Gap(R, q, p) == LET e == Explained(R, p) IN RSum([f \in 1..Len(p) |-> RSq(RSub(e[f], q[f]))])
GapCum(R, q, p) == LET e == VPrefixSums(Explained(R, p)) u == VPrefixSums(q) IN RSum(VAbs(VSub(e, u)))
Grid(n, d) == {p \in [1..n -> {RFrac(k, d) : k \in 0..d}] : REq(RSum(p), 1)}
Best(n, d, G(_)) == LET S == Grid(n, d) g == Force([p \in S |-> G(p)])
  least == CHOOSE p \in S : \A q \in S : RLe(g[p], g[q]) IN {p \in S : REq(g[p], g[least])}
Matching(t, b, n, d) == LET R == Rates(t, n) q == Share(b, n) IN Best(n, d, LAMBDA p : Gap(R, q, p))
OrdinalMatching(t, b, n, d) == LET R == Rates(t, n) q == Share(b, n) IN Best(n, d, LAMBDA p : GapCum(R, q, p))
=============================================================================
