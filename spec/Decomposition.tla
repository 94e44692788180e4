--------------------------- MODULE Decomposition ---------------------------
(* Decomposition of a problem with n classes into binary problems, and the
   composition of the binary answers.

   one-vs-rest      problem i tells class i from the rest              (n problems)
   Frank-and-Hall   problem i tells the i lowest classes from the rest (n-1 problems)
   pairwise         problem <<i, j>> tells class i from class j > i

   A binary answer is the weight of the positive group: class i, the lower group,
   or the lower class of the pair. *)
EXTENDS Rat, FiniteSets

Eps == "1/100000000"

(* ---- binary problems *)
Problems(scheme, n) == IF scheme = "ovr" THEN 1..n ELSE 1..(n - 1)
Positive(scheme, i, n) == IF scheme = "ovr" THEN {i} ELSE 1..i
BinaryLabel(scheme, i, c) == IF scheme = "ovr" THEN (IF c = i THEN 1 ELSE 0) ELSE (IF c <= i THEN 1 ELSE 0)

(* ---- one-vs-rest: estimates divided by their sum; nothing is known when all are zero *)
OneVsRestOk(p, out) ==
  /\ Len(out) = Len(p)
  /\ IF RLt(0, RSum(p)) THEN VClose(out, VNormalise(p), Eps) ELSE IsDistribution(out, Eps)

(* ---- cumulative estimates *)
RECURSIVE MaxUpTo(_, _)
MaxUpTo(c, i) == IF i = 1 THEN RNorm(c[1]) ELSE RMax(MaxUpTo(c, i - 1), c[i])
RECURSIVE MinFrom(_, _)
MinFrom(c, i) == IF i = Len(c) THEN RNorm(c[i]) ELSE RMin(c[i], MinFrom(c, i + 1))
Upper(c) == [i \in 1..Len(c) |-> MaxUpTo(c, i)]
Lower(c) == [i \in 1..Len(c) |-> MinFrom(c, i)]
Repaired(c) == LET u == Upper(c) l == Lower(c) IN [i \in 1..Len(c) |-> RDiv(RAdd(u[i], l[i]), 2)]
Ascending(c) == \A i \in 1..(Len(c) - 1) : RLe(c[i], c[i + 1])
Differences(c) == [i \in 1..(Len(c) + 1) |-> RSub(IF i > Len(c) THEN 1 ELSE c[i], IF i = 1 THEN 0 ELSE c[i - 1])]
Monotone(c) == Differences(Repaired(c))

(* ---- the rule of Frank and Hall *)
FrankHall(c) == LET n == Len(c) + 1 IN
  [j \in 1..n |-> IF j = 1 THEN RNorm(c[1]) ELSE IF j = n THEN RSub(1, c[n - 1]) ELSE RMul(RSub(1, c[j - 1]), c[j])]

(* ---- trees over splits a..b: <<>> is a leaf, <<k, left, right>> splits after class k *)
RECURSIVE BestTrees(_, _, _)
BestTrees(score, a, b) ==
  IF a > b THEN {<<>>}
  ELSE UNION {{<<k, l, r>> : l \in BestTrees(score, a, k - 1), r \in BestTrees(score, k + 1, b)} :
              k \in {x \in a..b : \A z \in a..b : RLe(score[x], RAdd(score[z], Eps))}}
RECURSIVE TreeProb(_, _, _)
TreeProb(t, c, j) == IF t = <<>> THEN 1
                     ELSE IF j <= t[1] THEN RMul(c[t[1]], TreeProb(t[2], c, j))
                     ELSE RMul(RSub(1, c[t[1]]), TreeProb(t[3], c, j))
TreeRow(t, c) == [j \in 1..(Len(c) + 1) |-> RNorm(TreeProb(t, c, j))]

(* ---- decision DAG over classes a..b; P[i][j] is the answer for the pair i < j *)
RECURSIVE DagFull(_, _, _, _)
DagFull(P, a, b, j) == IF j < a \/ j > b THEN 0
                       ELSE IF a = b THEN 1
                       ELSE RAdd(RMul(P[a][b], DagFull(P, a, b - 1, j)), RMul(RSub(1, P[a][b]), DagFull(P, a + 1, b, j)))
RECURSIVE DagWinner(_, _, _, _)
DagWinner(P, a, b, j) == IF a = b THEN (IF j = a THEN 1 ELSE 0)
                         ELSE IF b = a + 1 THEN (IF j = a THEN RNorm(P[a][b]) ELSE IF j = b THEN RSub(1, P[a][b]) ELSE 0)
                         ELSE IF RLe("1/2", P[a][b]) THEN DagWinner(P, a, b - 1, j) ELSE DagWinner(P, a + 1, b, j)
DagRow(P, n, mode) == [j \in 1..n |-> RNorm(IF mode = "full" THEN DagFull(P, 1, n, j) ELSE DagWinner(P, 1, n, j))]

(* ---- the class of highest probability *)
Highest(row, j) == \A k \in 1..Len(row) : RLe(row[k], RAdd(row[j], Eps))
Indicator(j, n) == [k \in 1..n |-> RNorm(IF k = j THEN 1 ELSE 0)]
=============================================================================
