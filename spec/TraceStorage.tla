---------------------------- MODULE TraceStorage ----------------------------
(* Events of one object: fit with / ask about content e.c stored as e.r; small: what was read back from the first rows of the stored table
   against the content itself (the harness must have stored it as the specification says).  state: content known, answers. *)
EXTENDS TraceBase, Storage, Rat
TStart == [known |-> 0, memo |-> <<>>]
Memo(s, e) == IF e.new THEN <<>> ELSE s.memo
Known(s, e) == IF e.new THEN 0 ELSE s.known
Key(s, e) == <<Known(s, e), e.c>>
TAfter(s, e) ==
  [known |-> IF e.ev = "fit" THEN e.c ELSE Known(s, e),
   memo |-> IF e.ev = "ask" /\ e.exc = "" /\ Key(s, e) \notin DOMAIN Memo(s, e) THEN (Key(s, e) :> e.out) @@ Memo(s, e) ELSE Memo(s, e)]
Agree(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : a[i] = b[i] \/ (RNum(a[i]) /\ RNum(b[i]) /\ RClose(a[i], b[i], "1/100000"))
Stored(e) == LET y == Layout(e.R, e.C, e.r) IN e.r.form = "strided" => e.steps = <<y.rows, y.columns>> \/ e.R = 1 \/ e.C = 1
TFailing(s, e) ==
  If(Stored(e), "stored-as-specified")
  \cup If(e.exc = "", IF e.ev = "fit" THEN "learns-from-any-storage" ELSE "answers-for-any-storage")
  \cup (IF e.ev = "ask" /\ e.exc = "" /\ Key(s, e) \in DOMAIN Memo(s, e) THEN If(Agree(Memo(s, e)[Key(s, e)], e.out), "same-answer-for-any-storage") ELSE {})
=============================================================================
