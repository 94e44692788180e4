-------------------------- MODULE TraceBinaryMethods --------------------------
(* Events:
   debias/sord/quant   one prediction: e.post positive training posteriors with classes e.y (1 negative, 2 positive),
                       e.y0 the classes fitted with (shorter when repetitions are stacked), bag e.bag, e.q slices, e.dist, e.out
   reject              fitting with e.n classes: e.exc *)
EXTENDS TraceBase, Simplex
B == INSTANCE BinaryMethods WITH Scores <- {}, MaxTrain <- 0, MaxTest <- 0, neg <- <<>>, pos <- <<>>, bag <- <<>>
X == INSTANCE Metrics WITH K <- 0, D <- 0, p <- 0, q <- 0
Of(e, c) == LET ix == SelectSeq([i \in 1..Len(e.y) |-> i], LAMBDA i : e.y[i] = c) IN [i \in 1..Len(ix) |-> e.post[ix[i]]]
Hundred == {RFrac(k, 100) : k \in 0..100}
Fifth(e) == IF e.fine THEN Hundred ELSE {RFrac(k, 20) : k \in 0..20}
Near(p) == {RClip(RAdd(p, d), 0, 1) : d \in {"-1/10", "-1/100", "-1/1000", "1/1000", "1/100", "1/10"}}
TStart == 0
TAfter(s, e) == 0
TFailing(s, e) ==
  CASE e.ev = "reject" -> If(e.n = 2 \/ e.exc # "", "rejects-non-binary") \cup If(e.n # 2 \/ e.exc = "", "accepts-binary")
    [] e.ev = "debias" ->
       LET n1 == Cardinality({i \in 1..Len(e.y0) : e.y0[i] = 2}) p1 == RFrac(n1, Len(e.y0))
           d == B!Debiased(e.post, RSub(1, p1), p1, VMean(e.bag))
       IN IF e.exc # "" THEN {"answers"}
          ELSE If(Len(e.out) = 2 /\ IsDistribution(e.out, "1/100000"), "distribution")
               \cup (IF d = <<>> THEN IF REq(VMean(e.bag), p1) THEN If(VClose(e.out, <<RSub(1, p1), p1>>, "1/1000000"), "no-information-no-correction") ELSE {}
                     ELSE If(VClose(e.out, d, "1/10000000"), "debiased-estimate"))
    [] e.ev \in {"sord", "quant"} ->
       LET neg == Of(e, 1) pos == Of(e, 2)
           vs == Force(B!SortSet(B!Range(neg) \cup B!Range(pos) \cup B!Range(e.bag)))
           hn == B!Shares(neg, vs) hp == B!Shares(pos, vs) ht == B!Shares(e.bag, vs)
           t == Force(B!QuantileMeans(vs, ht, e.q))
           S(p) == B!SordCost(vs, hn, hp, ht, p)
           D(p) == LET m == Force(B!QuantileMeans(vs, B!Mix(hn, hp, p), e.q)) IN IF e.dist = "l1" THEN X!L1(m, t) ELSE X!L2(m, t)
           flat == e.ev = "quant" /\ \A g \in Fifth(e) : RClose(D(g), D(0), "1/100000000000")
       IN IF e.exc # "" THEN (IF e.exc = "ValueError" /\ flat THEN {} ELSE {"answers"})
          ELSE IF Len(e.out) # 2 \/ ~VAllNum(e.out) THEN {"one-value-per-class"}
          ELSE If(IsDistribution(e.out, "1/100000"), "distribution")
               \cup (IF e.ev = "sord"
                     THEN LET o == RAdd(S(RClip(e.out[2], 0, 1)), RMul(2, e.tol)) IN
                          If(\A g \in Hundred \cup Near(e.out[2]) : RLe(o, RAdd(S(g), RMul(4, e.tol))), "least-sorted-order-cost")
                     ELSE LET o == D(RClip(e.out[2], 0, 1)) IN
                          If(\A g \in Fifth(e) : RLe(o, RAdd(D(g), "1/1000")), "closest-quantiles"))
===============================================================================
