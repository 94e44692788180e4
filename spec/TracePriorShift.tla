-------------------------- MODULE TracePriorShift --------------------------
(* Events  fit: e.m class sizes   predict: e.k factors, e.out; e.desc the descriptions of the classes (or e.gram their Gram
   matrices), one per binary quantifier that uses its own; e.tol; e.hd whether compared by Hellinger distance, which is so
   flat near its minimum that an answer as good as the truth to the solver's precision may be further away *)
EXTENDS TraceBase, PriorShift, Simplex
TStart == <<>>
TAfter(s, e) == IF e.ev = "fit" THEN e.m ELSE s
Needed == "1/50"
Identifiable(e) == (\A i \in 1..Len(e.gram) : RLe(Needed, IndependenceOf(e.gram[i]))) /\ (\A i \in 1..Len(e.desc) : RLe(Needed, Independence(e.desc[i])))
Near(e, t) == \/ VClose(e.out, t, e.tol)
              \/ e.hd /\ VClose(e.out, t, "1/20") /\ LET Mx == Force(MTranspose(e.desc[1])) b == Mixture(e.desc[1], t) IN
                                                    RLe(ObjHD(Mx, b, Project(e.out)), RAdd(ObjHD(Mx, b, t), "1/1000000"))
TFailing(s, e) ==
  IF e.ev = "fit" THEN If(e.exc = "", "answers")
  ELSE IF ~Identifiable(e) THEN {}
  ELSE IF e.exc # "" THEN {"answers"}
  ELSE IF ~VAllNum(e.out) THEN {"finite"}
  ELSE If(Near(e, True(s, e.k)), "true-prevalences")
=============================================================================
