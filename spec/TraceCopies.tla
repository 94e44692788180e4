---------------------------- MODULE TraceCopies ----------------------------
(* Events of a history of objects of kind e.kind
   start      an object made with settings e.given (pairs name, value)
   set        object e.o given value e.value for setting e.name (e.renew: by way of another estimator)
   estimator  object e.o given another estimator
   fit        object e.o fitted with data set e.d
   clone      of object e.o, copy of object e.o: the other object is it from now on
   ask        object e.o asked about bag e.b: e.out
   reference  answer e.out about bag e.b of an object made with settings e.given, the estimator trained with data set e.est and then
              itself fitted with data set e.d
   after each e.exc, e.read[o] the settings (pairs) object o says it has (<<>>: no such object) *)
EXTENDS TraceBase, Copies, Defaults, Rat
Pairs(g) == [p \in {g[k][1] : k \in 1..Len(g)} |-> (g[CHOOSE k \in 1..Len(g) : g[k][1] = p])[2]]
Doc(e) == IF e.kind \in Kinds THEN Documented[e.kind] ELSE <<>>
Full(e) == Pairs(e.given) @@ [p \in DOMAIN Pairs(e.others) |-> IF p \in DOMAIN Doc(e) THEN Doc(e)[p] ELSE Pairs(e.others)[p]]
TStart == [obj |-> <<>>, memo |-> <<>>]
Known(s, o) == o \in DOMAIN s.obj
Put(s, o, x) == [s EXCEPT !.obj = (o :> x) @@ @]
KeyOf(s, e) == IF e.ev = "reference" THEN <<[settings |-> Full(e), est |-> e.est, data |-> e.d], e.b>> ELSE Key(s.obj[e.o], e.b)
(* an object without an estimator has none to train *)
Bare(e, x) == IF e.bare THEN [x EXCEPT !.est = 0, !.learnt.est = 0] ELSE x
Judged(s, e) == IF e.ev = "ask" THEN Determined(s.obj[e.o]) ELSE e.ev = "reference"
TAfter(s, e) ==
  CASE e.ev = "start" -> [obj |-> <<Object(Full(e))>>, memo |-> <<>>]
    [] e.ev = "set" -> LET x == Given(s.obj[e.o], e.name, e.value) IN Put(s, e.o, IF e.renew THEN NewEstimator(x) ELSE x)
    [] e.ev = "estimator" -> Put(s, e.o, NewEstimator(s.obj[e.o]))
    [] e.ev = "fit" -> IF e.exc # "" THEN s ELSE Put(s, e.o, Bare(e, Trained(s.obj[e.o], e.d)))
    [] e.ev = "clone" -> Put(s, 3 - e.o, CloneOf(s.obj[e.o]))
    [] e.ev = "copy" -> Put(s, 3 - e.o, CopyOf(s.obj[e.o]))
    [] OTHER -> IF e.exc = "" /\ Judged(s, e) /\ KeyOf(s, e) \notin DOMAIN s.memo THEN [s EXCEPT !.memo = (KeyOf(s, e) :> e.out) @@ @] ELSE s
Agree(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : a[i] = b[i] \/ (RNum(a[i]) /\ RNum(b[i]) /\ RClose(a[i], b[i], "1/1000000"))
TFailing(s, e) ==
  LET t == TAfter(s, e) IN
  If(e.exc = "" \/ (e.ev = "ask" /\ ~Judged(s, e)), IF e.ev \in {"clone", "copy", "set", "estimator"} THEN "can-be-" \o e.ev ELSE "answers")
  \cup (IF e.ev = "reference" THEN {}
        ELSE If(\A o \in 1..Len(e.read) : IF o \in DOMAIN t.obj THEN Pairs(e.read[o]) = t.obj[o].settings ELSE e.read[o] = <<>>, "settings-as-given"))
  \cup (IF e.exc = "" /\ Judged(s, e) /\ KeyOf(s, e) \in DOMAIN s.memo THEN If(Agree(s.memo[KeyOf(s, e)], e.out), "same-as-made-anew") ELSE {})
=============================================================================
