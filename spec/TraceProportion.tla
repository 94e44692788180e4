-------------------------- MODULE TraceProportion --------------------------
(* Events  base: answer e.out of a problem (e.kind, e.strat)   step: answer e.out after one more transformation e.op (by e.by) *)
EXTENDS TraceBase, Proportion
TStart == [out |-> <<>>, tr |-> 1, te |-> 1, turned |-> FALSE]
TAfter(s, e) == IF e.ev = "base" THEN [out |-> e.out, tr |-> 1, te |-> 1, turned |-> FALSE]
                ELSE IF e.op = "train" THEN [s EXCEPT !.tr = s.tr * e.by] ELSE IF e.op = "bag" THEN [s EXCEPT !.te = s.te * e.by]
                ELSE [s EXCEPT !.turned = s.turned \/ e.op = "features"]
Clause(op) == CASE op \in {"train", "bag"} -> "sizes-do-not-matter" [] op \in {"scale", "shift"} -> "units-do-not-matter" [] OTHER -> "order-of-features-does-not-matter"
TFailing(s, e) ==
  IF e.exc # "" THEN {"answers"}
  ELSE IF ~VAllNum(e.out) THEN {"finite"}
  ELSE IF e.ev = "base" THEN {}
  ELSE LET z == TAfter(s, e) IN
    IF Len(e.out) # Len(s.out) THEN {"one-value-per-class"}
    ELSE IF Judged(e.kind, e.strat, z.tr, z.te, s.turned \/ e.op = "features") THEN If(VClose(e.out, s.out, e.tol), Clause(e.op)) ELSE {}
=============================================================================
