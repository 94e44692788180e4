---------------------------- MODULE TraceRefusal ----------------------------
(* Events of one object: fit with data e.what, ask about bag e.what: e.exc (refused) or e.out; reference: the answer of a new
   object fitted with e.data.  state: what is known, answers by data and bag. *)
EXTENDS TraceBase, Refusal, Rat
TStart == [known |-> "nothing", memo |-> <<>>]
Known(s, e) == IF e.new THEN "nothing" ELSE s.known
Memo(s, e) == IF e.new THEN <<>> ELSE s.memo
Code(k) == CASE k = "nothing" -> Nothing [] k = "unclear" -> Unclear [] OTHER -> 1
Key(s, e) == IF e.ev = "reference" THEN <<e.data, e.what>> ELSE <<Known(s, e), e.what>>
Judged(s, e) == e.ev = "reference" \/ (e.ev = "ask" /\ e.exc = "" /\ Response(Code(Known(s, e)), e.what \notin BadBags) = "answer")
TAfter(s, e) ==
  [known |-> IF e.ev = "fit" THEN (IF e.exc # "" \/ e.what \in BadData THEN "unclear" ELSE e.what) ELSE Known(s, e),
   memo |-> IF Judged(s, e) /\ Key(s, e) \notin DOMAIN Memo(s, e) THEN (Key(s, e) :> e.out) @@ Memo(s, e) ELSE Memo(s, e)]
Agree(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : a[i] = b[i] \/ (RNum(a[i]) /\ RNum(b[i]) /\ RClose(a[i], b[i], "1/1000000"))
TFailing(s, e) ==
  If(e.exc # "Timeout", "answers-in-time") \cup
  CASE e.ev = "fit" -> IF Learnable(e.kind, e.what) THEN If(e.exc = "", "learns") ELSE If(e.exc # "" \/ Careless(e.kind, e.trained), "refuses-data-" \o e.what)
    [] e.ev = "ask" -> LET r == Response(Code(Known(s, e)), e.what \notin BadBags) IN
                       If(r = "answer" => e.exc = "", "answers") \cup If(r = "refuse" => e.exc # "", IF e.what \in BadBags THEN "refuses-bag-" \o e.what ELSE "refuses-before-fit")
                       \cup (IF Judged(s, e) /\ Key(s, e) \in DOMAIN s.memo THEN If(Agree(s.memo[Key(s, e)], e.out), "refusals-leave-no-trace") ELSE {})
    [] e.ev = "reference" -> If(e.exc = "", "answers") \cup (IF e.exc = "" /\ Key(s, e) \in DOMAIN s.memo THEN If(Agree(s.memo[Key(s, e)], e.out), "refusals-leave-no-trace") ELSE {})
    [] e.ev = "wrong" -> If(e.exc # "", "refuses-" \o e.what)
=============================================================================
