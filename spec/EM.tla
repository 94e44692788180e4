--------------------------------- MODULE EM ---------------------------------
(* Expectation maximisation of class prevalences (Saerens et al.).

   State: current prevalences p, previous ones, number of iterations.  Iterate is one
   E-step and M-step.  Numbers are kept to 36 decimals (exact fractions would double
   in size with every iteration). *)
EXTENDS Simplex, TLC, Json, Emit

CONSTANTS K, PostRows, MaxBag, Counts, MaxIter

Digits == 36
(* one update of prevalences p for posteriors rows under training prevalences tr *)
Weighted(row, p, tr) == [k \in 1..Len(p) |-> RDiv(RMul(row[k], p[k]), tr[k])]
Posterior(row, p, tr) == LET w == Force(Weighted(row, p, tr)) s == RSum(w) IN [k \in 1..Len(p) |-> RRound(RDiv(w[k], s), Digits)]
Update(rows, p, tr) == LET posts == Force([i \in 1..Len(rows) |-> Force(Posterior(rows[i], p, tr))])
                       IN Force([k \in 1..Len(p) |-> RRound(VMean(MCol(posts, k)), Digits)])
Mae(p, q) == RDiv(RSum(VAbs(VSub(p, q))), Len(p))
(* log-likelihood of the bag, up to a constant *)
LogLik(rows, p, tr) == RSum([i \in 1..Len(rows) |-> RLn(RSum(Weighted(rows[i], p, tr)))])

(* the iterates at which the method may stop, for the rule: at least MinIt iterations and a
   mean change of at most eps, or max iterations; fuzz bounds the change of rounding *)
MinIt == 10
RECURSIVE StopsAt(_, _, _, _, _, _, _, _)
StopsAt(rows, p, prev, tr, it, eps, max, out) ==
  \* is out one of the admissible answers from this state on?
  LET tol == "1/10000000"
      fuzz == "1/1000000000"
      ch == Mae(p, prev)
      may == it >= max \/ (it >= MinIt /\ RLe(ch, RAdd(eps, fuzz)))
      must == it >= max \/ (it >= MinIt /\ RLe(RAdd(ch, fuzz), eps))
  IN \/ may /\ VClose(out, p, tol)
     \/ ~must /\ StopsAt(rows, Update(rows, p, tr), p, tr, it + 1, eps, max, out)
Admissible(rows, tr, eps, max, out) == StopsAt(rows, tr, [k \in 1..Len(tr) |-> 1], tr, 0, eps, max, out)
-----------------------------------------------------------------------------
VARIABLES bag, counts, p, it
vars == <<bag, counts, p, it>>
Tr == LET n == RSum(counts) IN [k \in 1..K |-> RDiv(counts[k], n)]
Init == /\ counts \in [1..K -> Counts] /\ bag = <<>> /\ it = 0
        /\ p = [k \in 1..K |-> RDiv(counts[k], RSum(counts))]
Arrive(r) == it = 0 /\ Len(bag) < MaxBag /\ bag' = Append(bag, r) /\ UNCHANGED <<counts, p, it>>
Iterate == bag # <<>> /\ it < MaxIter /\ p' = Update(bag, p, Tr) /\ it' = it + 1 /\ UNCHANGED <<bag, counts>>
Next == Iterate \/ \E r \in PostRows : Arrive(r)

Distribution == IsDistribution(p, "1/1000000000000000000000000000000")
LikelihoodGrows == [][it' = it + 1 => RLe(RSub(LogLik(bag, p, Tr), "1/1000000000000000000000000000000"), LogLik(bag, p', Tr))]_vars
(* a bag whose mean posterior is the training distribution is a fixed point *)
Calibrated == bag # <<>> /\ it = 1 /\ [k \in 1..K |-> VMean(MCol(bag, k))] = Tr => VClose(p, Tr, "1/1000000000000000000000000000000")
Export == it = 0 /\ bag # <<>> => EmitLine(ToJson([bag |-> bag, counts |-> counts]))
=============================================================================
