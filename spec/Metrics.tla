------------------------------ MODULE Metrics ------------------------------
(* The documented formulas of the quantification metrics and their laws.

   State: a pair (p, q) of true and predicted prevalences; Shift moves one unit of
   predicted mass between two classes.  The laws are checked on every reachable
   pair, i.e. on all pairs of grid distributions. *)
EXTENDS Rat, FiniteSets, TLC

CONSTANTS K, D       \* classes, units of mass

Eps   == "1/1000000000000"
Eps20 == "1/100000000000000000000"
Ln2   == RLn(2)
XLn(x, r) == IF REq(x, 0) THEN "0" ELSE RMul(x, RLn(r))       \* x ln r, zero for x = 0
XLog2(x, r) == RDiv(XLn(x, r), Ln2)
Sum2(Op(_, _), p, q) == RSum(VMap2(Op, p, q))

L1(p, q)  == RSum(VAbs(VSub(p, q)))
MAE(p, q) == RDiv(L1(p, q), Len(p))
SqSum(p, q) == LET d == VSub(p, q) IN RDot(d, d)
MSE(p, q) == RDiv(SqSum(p, q), Len(p))
L2(p, q)  == RSqrt(SqSum(p, q))
HD(p, q)  == LET s(a, b) == RSq(RSub(RSqrt(a), RSqrt(b))) IN RSqrt(Sum2(s, p, q))
BrayCurtis(p, q) == RDiv(L1(p, q), RSum(VAdd(p, q)))
KLD(p, q, eps) == LET s(a, b) == IF REq(a, 0) THEN "0" ELSE XLog2(a, RDiv(a, RAdd(b, eps))) IN Sum2(s, p, q)
Topsoe(p, q) == LET s(a, b) == IF REq(RAdd(a, b), 0) THEN "0"
                               ELSE RAdd(XLn(a, RDiv(RMul(2, a), RAdd(a, b))), XLn(b, RDiv(RMul(2, b), RAdd(a, b))))
                IN Sum2(s, p, q)
JS(p, q) == LET s(a, b) == IF REq(RAdd(a, b), 0) THEN "0"
                           ELSE RSub(RAdd(XLn(a, a), XLn(b, b)), XLn(RAdd(a, b), RDiv(RAdd(a, b), 2)))
            IN RDiv(Sum2(s, p, q), 2)
ProbSym(p, q) == LET s(a, b) == IF REq(RAdd(a, b), 0) THEN "0" ELSE RDiv(RSq(RSub(a, b)), RAdd(a, b))
                 IN RMul(2, Sum2(s, p, q))
EMD(p, q) == RSum(VAbs(VPrefixSums(VSub(p, q))))
Corner(n, i) == [j \in 1..n |-> IF j = i THEN "1" ELSE "0"]
EMDScore(p, q) == LET n == Len(p)
                      m == RMax(EMD(p, Corner(n, 1)), EMD(p, Corner(n, n)))
                  IN RDiv(RSub(m, EMD(p, q)), m)
Brier(P, Q) == VMean([i \in 1..Len(P) |-> SqSum(P[i], Q[i])])

(* binary versions, of the prevalence of the positive class *)
Bias(p, q) == RSub(q, p)
AE(p, q)   == RAbs(RSub(p, q))
SE(p, q)   == RSq(RSub(p, q))
RAE(p, q, eps) == RDiv(AE(p, q), IF REq(p, 0) THEN eps ELSE p)
SAPE(p, q) == IF REq(RAdd(p, q), 0) THEN "0" ELSE RDiv(AE(p, q), RAdd(p, q))
NAS(p, q)  == RSub(1, RDiv(AE(p, q), RMax(p, RSub(1, p))))
NSS(p, q)  == RSub(1, RSq(RDiv(AE(p, q), RMax(p, RSub(1, p)))))
BKLD(p, q, eps) == LET t(a, b) == IF REq(a, 0) THEN "0" ELSE XLog2(a, RDiv(a, IF REq(b, 0) THEN eps ELSE b))
                   IN RAdd(t(p, q), t(RSub(1, p), RSub(1, q)))

(* sensitivities of the classes seen in labels y or predictions z; correction for the unrecognised *)
Sens(y, z, c, corr) == LET n == Cardinality({i \in 1..Len(y) : y[i] = c})
                           h == Cardinality({i \in 1..Len(y) : y[i] = c /\ z[i] = c})
                       IN IF h = 0 THEN RNorm(corr) ELSE RFrac(h, n)
Labels(y, z) == {y[i] : i \in 1..Len(y)} \cup {z[i] : i \in 1..Len(z)}
RECURSIVE RProd(_, _, _, _)
RProd(S, y, z, corr) == IF S = {} THEN "1"
                        ELSE LET c == CHOOSE c \in S : TRUE IN RMul(Sens(y, z, c, corr), RProd(S \ {c}, y, z, corr))
RECURSIVE RPow(_, _)
RPow(a, n) == IF n = 0 THEN "1" ELSE RMul(a, RPow(a, n - 1))
(* the product of the sensitivities is the n-th power of the geometric mean *)
IsGMean(g, y, z, corr, tol) == LET S == Labels(y, z) IN
   /\ RNum(g) /\ RLe(0, g)
   /\ LET pr == RProd(S, y, z, corr) IN
      /\ RLe(pr, RPow(RAdd(g, tol), Cardinality(S)))
      /\ RLe(RPow(RMax(0, RSub(g, tol)), Cardinality(S)), pr)
-----------------------------------------------------------------------------
VARIABLES p, q
RECURSIVE Comp(_, _)
Comp(n, m) == IF n = 1 THEN {<<m>>} ELSE UNION {{<<a>> \o c : c \in Comp(n - 1, m - a)} : a \in 0..m}
Init == p \in Comp(K, D) /\ q = p
Shift(i, j) == q[i] > 0 /\ q' = [q EXCEPT ![i] = @ - 1, ![j] = @ + 1] /\ UNCHANGED p
Next == \E i, j \in 1..K : i # j /\ Shift(i, j)
P == [i \in 1..K |-> RFrac(p[i], D)]
Q == [i \in 1..K |-> RFrac(q[i], D)]
Tiny == "1/100000000000000000000000000000"
Dists == <<L1(P, Q), MAE(P, Q), L2(P, Q), MSE(P, Q), HD(P, Q), BrayCurtis(P, Q), Topsoe(P, Q), JS(P, Q), ProbSym(P, Q), EMD(P, Q)>>
Back  == <<L1(Q, P), MAE(Q, P), L2(Q, P), MSE(Q, P), HD(Q, P), BrayCurtis(Q, P), Topsoe(Q, P), JS(Q, P), ProbSym(Q, P), EMD(Q, P)>>
Symmetric   == VClose(Dists, Back, Tiny)
ZeroIffSame == \A i \in 1..Len(Dists) : IF p = q THEN RLe(RAbs(Dists[i]), Tiny) ELSE RLt("1/1000000", Dists[i])
Scores == /\ RLe(EMDScore(P, Q), 1) /\ (REq(EMDScore(P, Q), 1) <=> p = q) /\ RLe(0, EMDScore(P, Q))
          /\ RLe(NAS(P[1], Q[1]), 1) /\ (REq(NAS(P[1], Q[1]), 1) <=> P[1] = Q[1]) /\ RLe(0, NAS(P[1], Q[1]))
          /\ RLe(NSS(P[1], Q[1]), 1) /\ (REq(NSS(P[1], Q[1]), 1) <=> P[1] = Q[1])
Gibbs == RLe("-1/100000000", KLD(P, Q, Eps)) /\ RLe("-1/100000000", BKLD(P[1], Q[1], Eps))
JSIsHalfTopsoe == RClose(RMul(2, JS(P, Q)), Topsoe(P, Q), Tiny)
(* moving a unit changes the distances at most proportionally *)
Lipschitz == [][\A i, j \in 1..K : i # j /\ q' = [q EXCEPT ![i] = @ - 1, ![j] = @ + 1] =>
                  /\ RLe(RAbs(RSub(L1(P, Q), L1(P, Q)')), RFrac(2, D))
                  /\ RLe(RAbs(RSub(EMD(P, Q), EMD(P, Q)')), RFrac(IF i < j THEN j - i ELSE i - j, D))]_<<p, q>>
=============================================================================
