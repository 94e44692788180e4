------------------------- MODULE TraceDecomposition -------------------------
(* Events
   compose   a decomposition quantifier (e.scheme) of e.n classes was fitted on e.y and asked: e.fits[i] are the rows
             <<binary label, v...>> member i was fitted with and e.asked[i] what it was applied to; e.rows / e.trows what they
             stand for (e.source "X": example numbers; else T[k][i], answer of problem i for row k); e.est scripted answers,
             e.out; e.template
   rows      an ordinal classifier (e.rule): e.problems binary problems of its models, e.T answers, e.out rows, e.labels
   binarizer labels e.out of the binary problems for classes e.y
   tree      a tree classifier: e.T answers for the test rows, e.train for the training examples, e.y, e.measure; e.out,
             e.labels and, e.bag # <<>>, the quantifier's answer
   dag       e.P tables (one per row), e.mode, e.out, e.labels, e.problems *)
EXTENDS TraceBase, Decomposition
M == INSTANCE Metrics WITH K <- 0, D <- 0, p <- <<>>, q <- <<>>
TStart == 0
TAfter(s, e) == 0

Row(source, T, k, i) == IF source = "X" THEN <<T[k]>> ELSE <<RSub(1, T[k][i]), RNorm(T[k][i])>>
Crisp(T, k, i) == IF RLt("1/2", T[k][i]) THEN <<"1">> ELSE <<"0">>
Content(e, T, k, i) == IF e.crisp THEN Crisp(T, k, i) ELSE Row(e.source, T, k, i)
Lesson(e, i) == [k \in 1..Len(e.rows) |->
                   <<RNorm(BinaryLabel(e.scheme, i, e.y[((k - 1) % Len(e.y)) + 1]))>> \o Content(e, e.rows, k, i)]
Given(e, i) == [k \in 1..Len(e.trows) |-> Content(e, e.trows, k, i)]
SameBag(s, t) == /\ Len(s) = Len(t)
                 /\ \A x \in {s[k] : k \in 1..Len(s)} \cup {t[k] : k \in 1..Len(t)} :
                       Cardinality({k \in 1..Len(s) : s[k] = x}) = Cardinality({k \in 1..Len(t) : t[k] = x})
ProblemsOk(ps, n) == /\ Len(ps) = n - 1
                     /\ \A i \in 1..(n - 1) : ps[i].pos = [k \in 1..i |-> k] /\ ps[i].neg = [k \in 1..(n - i) |-> i + k]
                                              /\ ps[i].all
LabelsOk(e) == Len(e.labels) = Len(e.out) /\ \A k \in 1..Len(e.out) : e.labels[k] \in 1..e.n /\ Highest(e.out[k], e.labels[k])
Readable(e) == \A k \in 1..Len(e.out) : Len(e.out[k]) = e.n /\ VAllNum(e.out[k])

Measure(m, p, q) == CASE m = "kld" -> M!BKLD(p, q, M!Eps) [] m = "ae" -> RAbs(RSub(p, q)) [] m = "bias" -> RSub(q, p)
Scores(e) == LET N == Len(e.y) IN
  [i \in 1..(e.n - 1) |-> Measure(e.measure, RDiv(Cardinality({k \in 1..N : e.y[k] <= i}), N), RDiv(RSum(MCol(e.train, i)), Len(e.train)))]

TFailing(s, e) ==
  IF e.exc # "" THEN {"answers"} ELSE
  CASE e.ev = "compose" ->
         LET ok == Len(e.fits) = Cardinality(Problems(e.scheme, e.n)) /\ Len(e.asked) = Len(e.fits) IN
         If(ok, "one-member-per-problem")
         \cup (IF ~ok THEN {} ELSE
               If(\A i \in 1..Len(e.fits) : SameBag(e.fits[i], Force(Lesson(e, i))), "member-fitted-on-its-problem")
               \cup If(\A i \in 1..Len(e.fits) : SameBag(e.asked[i], Force(Given(e, i))), "member-applied-to-its-predictions"))
         \cup If(Len(e.out) = e.n /\ VAllNum(e.out)
                 /\ IF e.scheme = "ovr" THEN OneVsRestOk(e.est, e.out) ELSE VClose(e.out, Monotone(e.est), Eps), "composition")
         \cup If(e.template, "template-unfitted")
    [] e.ev = "rows" ->
         If(ProblemsOk(e.problems, e.n), "binary-problems")
         \cup (IF ~Readable(e) \/ Len(e.out) # Len(e.T) THEN {"probabilities"} ELSE
               If(\A k \in 1..Len(e.T) : VClose(e.out[k], IF e.rule = "plain" THEN FrankHall(e.T[k]) ELSE Monotone(e.T[k]), Eps), "probabilities")
               \cup If(LabelsOk(e), "labels"))
    [] e.ev = "binarizer" ->
         If(Len(e.out) = Len(e.y) /\ \A k \in 1..Len(e.y) : e.out[k] = [i \in 1..(e.n - 1) |-> IF e.y[k] <= i THEN e.pos ELSE e.neg], "binary-labels")
    [] e.ev = "tree" ->
         If(ProblemsOk(e.problems, e.n), "binary-problems")
         \cup (IF ~Readable(e) \/ Len(e.out) # Len(e.T) THEN {"probabilities"} ELSE
               LET ts == Force(BestTrees(Force(Scores(e)), 1, e.n - 1)) IN
               If(\E t \in ts : \A k \in 1..Len(e.T) : VClose(e.out[k], TreeRow(t, e.T[k]), Eps), "best-split-tree")
               \cup If(LabelsOk(e), "labels")
               \cup If(e.bag = <<>> \/ \E t \in ts : VClose(e.bag, [j \in 1..e.n |-> RDiv(RSum([k \in 1..Len(e.T) |-> TreeProb(t, e.T[k], j)]), Len(e.T))], Eps),
                       "average-over-bag"))
    [] e.ev = "dag" ->
         If(\A i \in 1..Len(e.problems) : e.problems[i].ok, "pairwise-problems")
         \cup If(Cardinality({<<e.problems[i].lo, e.problems[i].hi>> : i \in 1..Len(e.problems)}) = (e.n * (e.n - 1)) \div 2, "pairwise-problems")
         \cup (IF ~Readable(e) \/ Len(e.out) # Len(e.P) THEN {"probabilities"} ELSE
               If(\A k \in 1..Len(e.P) : VClose(e.out[k], DagRow(e.P[k], e.n, e.mode), Eps), "probabilities")
               \cup If(LabelsOk(e), "labels"))
    [] OTHER -> {"known-event"}
===============================================================================
