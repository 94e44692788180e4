------------------------------ MODULE CrossVal ------------------------------
(* Cross-validated predictions.

   N training examples; tr[j] is the set of examples model j was trained with.  The models
   come repetition by repetition: the consecutive groups of models whose left-out examples
   together are every example exactly once.

   P[j][i] is the distribution model j gives to the i-th queried example. *)
EXTENDS Rat, FiniteSets
LeftOut(N, tr, j) == (1..N) \ tr[j]
RECURSIVE Before(_, _, _)
Before(N, tr, j) == IF j = 0 THEN 0 ELSE Before(N, tr, j - 1) + Cardinality(LeftOut(N, tr, j))
(* the repetition model j belongs to *)
RepOf(N, tr, j) == (Before(N, tr, j - 1) \div N) + 1
NReps(N, tr) == Before(N, tr, Len(tr)) \div N
WellFormed(N, tr) ==
  /\ Before(N, tr, Len(tr)) = N * NReps(N, tr)
  /\ \A r \in 1..NReps(N, tr), i \in 1..N :
        Cardinality({j \in 1..Len(tr) : RepOf(N, tr, j) = r /\ i \notin tr[j]}) = 1
(* the model that predicts example i in repetition r *)
Judge(N, tr, r, i) == CHOOSE j \in 1..Len(tr) : RepOf(N, tr, j) = r /\ i \notin tr[j]

(* which models predict the queried examples: a sequence of rows (repetitions, or all models), each a sequence over the examples *)
TrainRows(N, tr) == [r \in 1..NReps(N, tr) |-> [i \in 1..N |-> Judge(N, tr, r, i)]]
OtherRows(tr, m) == [j \in 1..Len(tr) |-> [i \in 1..m |-> j]]

(* a model that has not seen a class gives it nothing: the row over all classes *)
Expand(row, known, nc) == [c \in 1..nc |-> IF \E k \in 1..Len(known) : known[k] = c
                                           THEN row[CHOOSE k \in 1..Len(known) : known[k] = c] ELSE 0]
ArgMax(v) == CHOOSE c \in 1..Len(v) : (\A d \in 1..Len(v) : RLe(v[d], v[c])) /\ (\A d \in 1..(c - 1) : RLt(v[d], v[c]))

(* combinations of raw[row][example] *)
Averaged(raw) == [i \in 1..Len(raw[1]) |-> [c \in 1..Len(raw[1][1]) |-> VMean([r \in 1..Len(raw) |-> raw[r][i][c]])]]
Stacked(raw)  == LET m == Len(raw[1]) IN [k \in 1..(Len(raw) * m) |-> raw[((k - 1) \div m) + 1][((k - 1) % m) + 1]]
Votes(raw, i, c) == Cardinality({r \in 1..Len(raw) : ArgMax(raw[r][i]) = c})
MostVoted(raw, i) == LET nc == Len(raw[1][1]) IN
  CHOOSE c \in 1..nc : (\A d \in 1..nc : Votes(raw, i, d) <= Votes(raw, i, c)) /\ (\A d \in 1..(c - 1) : Votes(raw, i, d) < Votes(raw, i, c))
=============================================================================
