----------------------------- MODULE MCCrossVal -----------------------------
(* All fold assignments of N examples: Reps repetitions, each into K non-empty folds, and all short
   sequences of requests (the training data, other data) with refits in between. *)
EXTENDS CrossVal, Json, TLC, Emit
CONSTANTS N, K, Reps, Depth
VARIABLES folds, tr, hist
vars == <<folds, tr, hist>>
Assign == {f \in [1..N -> 1..K] : \A k \in 1..K : \E i \in 1..N : f[i] = k}
Models(fs) == [j \in 1..(Reps * K) |-> {i \in 1..N : fs[((j - 1) \div K) + 1][i] # ((j - 1) % K) + 1}]
Init == /\ folds \in [1..Reps -> Assign]
        /\ tr = <<>> /\ hist = <<>>
Fit == tr' = Models(folds) /\ hist' = Append(hist, "fit")
Ask(w) == tr # <<>> /\ hist' = Append(hist, w) /\ UNCHANGED tr
Next == Len(hist) < Depth /\ UNCHANGED folds /\ (Fit \/ Ask("train") \/ Ask("other"))
Ready == tr # <<>>
Partition == Ready => WellFormed(N, tr) /\ NReps(N, tr) = Reps
OutOfFold == Ready => \A r \in 1..Reps, i \in 1..N : i \notin tr[TrainRows(N, tr)[r][i]]
OneRepEach == Ready => \A r \in 1..Reps, i \in 1..N : RepOf(N, tr, TrainRows(N, tr)[r][i]) = r
(* stacked predictions line up with the labels repeated Reps times *)
LinesUp == Ready => LET rows == TrainRows(N, tr)
                        st == Stacked([r \in 1..Reps |-> [i \in 1..N |-> <<i>>]])
                    IN \A k \in 1..(N * Reps) : st[k] = <<((k - 1) % N) + 1>>
Export == Len(hist) = Depth => EmitLine(ToJson([folds |-> folds, hist |-> hist]))
=============================================================================
