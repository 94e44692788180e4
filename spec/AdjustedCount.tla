---------------------------- MODULE AdjustedCount ----------------------------
(* Adjusted counting (AC, PAC): the training predictions give, per true class t,
   the rate cm[t][p] with which it is predicted as p; a bag's prevalences are those
   that explain its observed rates obs under cm.

   Training: Learn(t, p) sees one training example of true class t predicted p,
   Observe(p) one test example predicted p; Answer is the correction. *)
EXTENDS Simplex, TLC, Json, Emit

CONSTANTS K, MaxTrain, MaxTest

Indistinguishable == "1/1000"     \* |tpr - fpr| up to which nothing is corrected

(* the observed rates obs = sum_t p[t] * cm[t] to be inverted *)
Explained(cm, p) == MVec(MTranspose(cm), p)

Binary(cm, obs) ==
  LET tpr == cm[2][2]
      fpr == cm[1][2]
  IN IF RLe(RAbs(RSub(tpr, fpr)), Indistinguishable)
     THEN obs
     ELSE LET p == RClip(RDiv(RSub(obs[2], fpr), RSub(tpr, fpr)), 0, 1) IN <<RSub(1, p), p>>

Regular(cm) == ~REq(RDet(cm), 0)
Multiclass(cm, obs) == Project(RSolve(MTranspose(cm), obs))

(* which prevalences may be answered *)
Admissible(cm, obs, dist, p, tol, otol) ==
  IF Len(cm) = 2 THEN VClose(p, Binary(cm, obs), tol)
  ELSE IF Regular(cm) THEN VClose(p, Multiclass(cm, obs), tol)
  ELSE /\ IsDistribution(p, otol)
       /\ LET Mx == MTranspose(cm)
              O(q) == ObjOf(dist, Mx, obs, q)
          IN IsMinimiser(O, p, otol)

Rates(rows) == [t \in 1..Len(rows) |-> [p \in 1..Len(rows[t]) |-> RDiv(rows[t][p], RSum(rows[t]))]]
-----------------------------------------------------------------------------
VARIABLES table, test
vars == <<table, test>>

Zero == [p \in 1..K |-> 0]
Total(r) == RInt(RSum(r))
Init == table = [t \in 1..K |-> Zero] /\ test = Zero
Learn(t, p) == /\ Total(table[t]) < MaxTrain
               /\ test = Zero
               /\ table' = [table EXCEPT ![t][p] = @ + 1]
               /\ UNCHANGED test
Trained == \A t \in 1..K : Total(table[t]) > 0
Observe(p) == /\ Trained
              /\ Total(test) < MaxTest
              /\ test' = [test EXCEPT ![p] = @ + 1]
              /\ UNCHANGED table
Next == \E p \in 1..K : Observe(p) \/ \E t \in 1..K : Learn(t, p)

Ready == Trained /\ Total(test) > 0
cmNow == Rates(table)
obsNow == [p \in 1..K |-> RFrac(test[p], Total(test))]
Answer == IF K = 2 THEN Binary(cmNow, obsNow) ELSE Multiclass(cmNow, obsNow)

RatesAreDistributions == Trained => \A t \in 1..K : IsDistribution(cmNow[t], 0)
AnswerIsDistribution  == Ready /\ (K = 2 \/ Regular(cmNow)) => IsDistribution(Answer, 0)
(* inverting explained rates gives back the prevalences *)
Inverts == Trained /\ Regular(cmNow) =>
   \A q \in Grid(K) : LET o == Explained(cmNow, q)
                      IN IF K = 2 THEN Binary(cmNow, o) = q ELSE Multiclass(cmNow, o) = q
(* when the exact solution is a distribution the answer explains the observation *)
Explains == Ready /\ K > 2 /\ Regular(cmNow) =>
   LET s == RSolve(MTranspose(cmNow), obsNow) IN
     (\A k \in 1..K : RLe(0, s[k])) => Explained(cmNow, Answer) = obsNow
(* a perfect classifier needs no correction *)
PerfectIsCount == Ready /\ (\A t \in 1..K : cmNow[t][t] = "1") => Answer = obsNow

Export == Ready => EmitLine(ToJson([table |-> table, test |-> test]))
==============================================================================
