----------------------------- MODULE Proportion -----------------------------
(* Sizes and units do not matter.

   A problem: training examples [y: class, x: a whole number], and a bag of such numbers.  Repeating every training example,
   or every example of the bag, equally often, and measuring x in other units (x -> a x + b, a > 0), leave the answers of
   methods that compare fractions of examples, means of distances, or ranks (of samples that keep their relative sizes). *)
EXTENDS Rat, FiniteSets
RECURSIVE Rep(_, _)
Rep(s, k) == IF k = 0 THEN <<>> ELSE s \o Rep(s, k - 1)
Unit(s, a, c) == [k \in 1..Len(s) |-> a * s[k] + c]
UnitT(t, a, c) == [k \in 1..Len(t) |-> [y |-> t[k].y, x |-> a * t[k].x + c]]
Of(t, c) == LET ix == SelectSeq([k \in 1..Len(t) |-> k], LAMBDA k : t[k].y = c) IN [k \in 1..Len(ix) |-> t[ix[k]].x]
All(t) == [k \in 1..Len(t) |-> t[k].x]
Least(s) == CHOOSE v \in {s[k] : k \in 1..Len(s)} : \A k \in 1..Len(s) : v <= s[k]
Most(s) == CHOOSE v \in {s[k] : k \in 1..Len(s)} : \A k \in 1..Len(s) : v >= s[k]
(* bin of v among nb of equal width between lo and hi; what lies outside goes to the first or the last one *)
Bin(v, lo, hi, nb) == IF hi = lo \/ v <= lo THEN 1 ELSE IF v >= hi THEN nb ELSE 1 + ((v - lo) * nb) \div (hi - lo)
Fractions(s, lo, hi, nb) == Force([j \in 1..nb |-> RFrac(Cardinality({k \in 1..Len(s) : Bin(s[k], lo, hi, nb) = j}), Len(s))])
Mean(s, u, D(_, _)) == RDiv(RSum([k \in 1..(Len(s) * Len(u)) |-> D(s[((k - 1) \div Len(u)) + 1], u[((k - 1) % Len(u)) + 1])]), Len(s) * Len(u))
Grid(n, d) == {p \in [1..n -> {RFrac(k, d) : k \in 0..d}] : REq(RSum(p), 1)}
Best(n, d, G(_)) == LET S == Grid(n, d) g == Force([p \in S |-> G(p)])
  least == CHOOSE p \in S : \A q \in S : RLe(g[p], g[q]) IN {p \in S : REq(g[p], g[least])}
Gap(R, q, p) == RSum([j \in 1..Len(q) |-> RSq(RSub(RSum([c \in 1..Len(p) |-> RMul(p[c], R[c][j])]), q[j]))])
(* answers of matching fractions in bins, and of matching by energy distance *)
Binned(t, b, n, nb, d) == LET lo == Least(All(t)) hi == Most(All(t)) R == Force([c \in 1..n |-> Fractions(Of(t, c), lo, hi, nb)]) q == Fractions(b, lo, hi, nb) IN
  Best(n, d, LAMBDA p : Gap(R, q, p))
Distant(x, z) == IF x > z THEN x - z ELSE z - x
EnergyOf(cls, b, n, d) == LET K == Force([i \in 1..n |-> [j \in 1..n |-> Mean(cls[i], cls[j], Distant)]]) u == Force([i \in 1..n |-> Mean(cls[i], b, Distant)]) IN
  Best(n, d, LAMBDA p : RSub(RMul(2, RDot(p, u)), RDot(p, MVec(K, p))))
Energy(t, b, n, d) == EnergyOf([c \in 1..n |-> Of(t, c)], b, n, d)
(* twice the average rank of v among s, the first place being 1 *)
Rank2(s, v) == 2 * Cardinality({k \in 1..Len(s) : s[k] < v}) + Cardinality({k \in 1..Len(s) : s[k] = v}) + 1
Ranked(t, b, n, d) == LET s == All(t) \o b IN
  EnergyOf(Force([c \in 1..n |-> LET o == Of(t, c) IN [k \in 1..Len(o) |-> Rank2(s, o[k])]]), Force([k \in 1..Len(b) |-> Rank2(s, b[k])]), n, d)

(* which repetitions and units quantifiers may be judged by *)
Ranking == {"CvMy"}
Nearest == {"PWKQ"}
Drawing == {"REGX", "REGy", "EoQ", "EoQX", "EoQc"}
(* a history with training examples repeated tr times, the bag te times *)
Judged(kind, strat, tr, te, turned) ==
  IF kind \in Ranking THEN tr = te
  ELSE IF kind \in Nearest \cup Drawing THEN tr = 1 /\ (turned => kind \notin Drawing)      \* regressors may look at columns in order
  ELSE strat # "equal_count" \/ tr = 1         \* its cut points are whole positions among the sorted examples
=============================================================================
