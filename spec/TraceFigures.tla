---------------------------- MODULE TraceFigures ----------------------------
EXTENDS TraceBase, Figures
TStart == 0
TAfter(s, e) == 0
TFailing(s, e) ==
  IF e.exc # "" THEN {"works"}
  ELSE CASE e.ev = "lines" -> If(Shown(e.order, e.rows, e.lines, e.palette), "lines-show-prevalences")
                              \cup If(\A i \in 1..Len(e.lines) : \A j \in 1..Len(e.lines[i]) : RLe("-1/1000000000", e.lines[i][j].from) /\ RLe(e.lines[i][j].to, "1000000001/1000000000"), "lines-within-axes")
                              \cup If(e.kept, "argument-unchanged")
         [] e.ev = "boxes" -> If(Len(e.marks) = Len(e.columns) /\ \A j \in 1..Len(e.columns) : SameMarks(Marks(Force(Box(e.columns[j]))), {e.marks[j][i] : i \in 1..Len(e.marks[j])}), "boxes-show-errors")
                              \cup If(e.fills = e.colours, "box-colours") \cup If(e.shown = e.labels, "box-labels") \cup If(e.titles = e.asked, "axis-titles")
                              \cup If(e.kept, "argument-unchanged")
         [] e.ev = "scale" -> LET a == Scaled(e.train, e.train)  b == Scaled(e.train, e.test) IN
                              If(Len(e.out) = 2 /\ Len(e.out[1]) = Len(a) /\ \A i \in 1..Len(a) : VClose(e.out[1][i], a[i], "1/1000000000"), "training-scaled")
                              \cup If(Len(e.out) = 2 /\ Len(e.out[2]) = Len(b) /\ \A i \in 1..Len(b) : VClose(e.out[2][i], b[i], "1/10000000"), "test-scaled-as-training")
                              \cup If(e.kept, "argument-unchanged")
         [] e.ev = "load" -> If(Len(e.x) = Len(e.rows) /\ \A i \in 1..Len(e.rows) : VClose(e.x[i], Features(e.rows)[i], "1/1000000000000"), "features-read")
                              \cup If(Len(e.y) = Len(e.rows) /\ VClose(e.y, Classes(e.rows), 0), "classes-read")
                              \cup If(e.whole, "classes-are-whole-numbers")
=============================================================================
