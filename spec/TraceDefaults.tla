--------------------------- MODULE TraceDefaults ---------------------------
(* Events  made: an object e.kind with settings e.given (pairs name, value) asked question e.asks answers e.out (or fails with e.exc)
   State: answers so far, by settings in effect *)
EXTENDS TraceBase, Defaults, Rat
TStart == <<>>
Given(e) == LET g == e.given IN [p \in {g[k][1] : k \in 1..Len(g)} |-> (g[CHOOSE k \in 1..Len(g) : g[k][1] = p])[2]]
Key(e) == <<e.asks, Canon(e.kind, Given(e))>>
TAfter(s, e) == IF Key(e) \in DOMAIN s THEN s ELSE (Key(e) :> [out |-> e.out, exc |-> e.exc]) @@ s
TFailing(s, e) ==
  If(DOMAIN Given(e) \subseteq DOMAIN Documented[e.kind], "known-settings") \cup
  If(e.silent => ~e.printed, "silent-by-default") \cup
  (IF e.plain /\ e.exc # "" THEN {"answers"} ELSE {}) \cup
  (IF Key(e) \in DOMAIN s THEN
     LET o == s[Key(e)] IN
     IF o.exc # e.exc THEN {"same-failure"} ELSE IF e.exc # "" THEN {}
     ELSE If(Len(o.out) = Len(e.out) /\ \A k \in 1..Len(e.out) : o.out[k] = e.out[k] \/ (RNum(o.out[k]) /\ RNum(e.out[k]) /\ RClose(o.out[k], e.out[k], "1/1000000000")), "documented-default")
   ELSE {})
=============================================================================
