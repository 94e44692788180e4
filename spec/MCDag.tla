------------------------------- MODULE MCDag -------------------------------
(* The decision DAG as a walk: a range of candidate classes loses one of its extremes
   at every step.  The pairwise answers are chosen first (multiples of 1/D). *)
EXTENDS Decomposition, Json, Emit
CONSTANTS N, D
VARIABLES P, a, b, mass
Pairs == {x \in (1..N) \X (1..N) : x[1] < x[2]}
Tables == [Pairs -> {RFrac(x, D) : x \in 0..D}]
AsTable(f) == [i \in 1..N |-> [j \in 1..N |-> IF i < j THEN f[<<i, j>>] ELSE "0"]]
Init == /\ \E f \in Tables : P = AsTable(f)
        /\ a = 1 /\ b = N /\ mass = "1"
KeepLower == a < b /\ b' = b - 1 /\ a' = a /\ mass' = RMul(mass, P[a][b]) /\ P' = P
KeepUpper == a < b /\ a' = a + 1 /\ b' = b /\ mass' = RMul(mass, RSub(1, P[a][b])) /\ P' = P
Next == KeepLower \/ KeepUpper
Rows == \A m \in {"full", "winner"} : IsDistribution(DagRow(P, N, m), 0)
(* what has been walked so far is part of the mass of the classes in the range *)
Share == RLe(mass, RSum([j \in 1..(b - a + 1) |-> DagFull(P, 1, N, a + j - 1)]))
WinnerPair == Cardinality({j \in 1..N : ~REq(DagWinner(P, 1, N, j), 0)}) <= 2
(* crisp models: both modes agree *)
CrispTable == \A x \in Pairs : P[x[1]][x[2]] \in {"0", "1"}
CrispAgree == CrispTable => DagRow(P, N, "full") = DagRow(P, N, "winner")
(* models that all prefer the class nearest to k end in k *)
Export == a = 1 /\ b = N => EmitLine(ToJson([p |-> P]))
=============================================================================
