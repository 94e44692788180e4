--------------------------- MODULE TraceBagSharing ---------------------------
(* Events (several histories; e.new starts one, the memory of bags outlives them):
   request  generator e.g of setting e.setting (with kind of randomness e.rnd) and seed e.seed is asked with data e.d;
            e.bags: digest of the bags it returned
   consume  consumer of kind e.kind fitted on data e.d with the bags of generator e.g; e.bags: digest of the bags it holds
   default  a quantifier of kind e.kind with the default generator (or, e.ref, with a new generator of default settings)
            is fitted on data e.d and predicts bag e.b; e.out: digest of the answer

   State: bags by <<setting, rnd, seed, data>>; frozen bags by generator; answers of default quantifiers. *)
EXTENDS TraceBase
TStart == [bags |-> <<>>, frozen |-> <<>>, ans |-> <<>>]
Has(f, k) == k \in DOMAIN f
Put(f, k, v) == IF Has(f, k) THEN f ELSE f @@ (k :> v)
Key(e) == <<e.setting, e.rnd, e.seed, e.d>>
Reset(s, e) == IF e.new THEN [s EXCEPT !.frozen = <<>>] ELSE s
TAfter(s0, e) ==
  LET s == Reset(s0, e) IN
  IF e.exc # "" THEN s ELSE
  CASE e.ev = "request" -> IF Has(s.frozen, e.g) THEN s
                           ELSE [s EXCEPT !.frozen = Put(@, e.g, e.bags), !.bags = IF e.rnd = "shared" THEN @ ELSE Put(@, Key(e), e.bags)]
    [] e.ev = "default" -> [s EXCEPT !.ans = Put(@, <<e.kind, e.d, e.b>>, e.out)]
    [] OTHER -> s
TFailing(s0, e) ==
  LET s == Reset(s0, e) IN
  IF e.exc # "" THEN {"answers"} ELSE
  CASE e.ev = "request" ->
         IF Has(s.frozen, e.g) THEN If(s.frozen[e.g] = e.bags, "frozen")
         ELSE IF e.rnd = "shared" THEN {}
         ELSE If(Has(s.bags, Key(e)) => s.bags[Key(e)] = e.bags, "same-seed-same-bags")
              \cup If(\A k \in DOMAIN s.bags : k[1] = e.setting /\ k[2] = e.rnd /\ k[4] = e.d /\ k[3] # e.seed => s.bags[k] # e.bags, "other-seed-other-bags")
    [] e.ev = "consume" -> If(Has(s.frozen, e.g) /\ s.frozen[e.g] = e.bags, "shared-bags")
    [] e.ev = "default" -> If(Has(s.ans, <<e.kind, e.d, e.b>>) => s.ans[<<e.kind, e.d, e.b>>] = e.out, "default-quantifiers-independent")
    [] OTHER -> {"known-event"}
===============================================================================
