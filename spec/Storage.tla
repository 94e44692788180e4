------------------------------ MODULE Storage ------------------------------
(* How a table of numbers may be stored, and what is read from it.

   Strided: cells of a buffer, the one of row i and column j at offset + i * rows + j * columns (negative steps run backwards);
   cells in between belong to others.  Lists: line after line (rows, or columns) the values that are not zero, with their
   places, in any order; zeros may be among them. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Others == -7
(* ---- recipes: the fields of a recipe that does not need them are FALSE / 1 ---- *)
Strided == [form : {"strided"}, by : {"rows", "columns"}, gap : {1, 2}, flip : {"no", "rows", "columns", "both"}, zeros : {FALSE}, turned : {FALSE}]
Lists == [form : {"lists"}, by : {"rows", "columns"}, gap : {1}, flip : {"no"}, zeros : BOOLEAN, turned : BOOLEAN]
Recipes == Strided \cup Lists
Plain == [form |-> "strided", by |-> "rows", gap |-> 1, flip |-> "no", zeros |-> FALSE, turned |-> FALSE]
(* ---- storing table m (a sequence of rows of the same length) ---- *)
Layout(R, C, r) ==
  LET a == IF r.by = "rows" THEN C * r.gap * r.gap ELSE r.gap        \* step from row to row
      b == IF r.by = "rows" THEN r.gap ELSE R * r.gap * r.gap
      fr == r.flip \in {"rows", "both"}  fc == r.flip \in {"columns", "both"} IN
  [start |-> (IF fr THEN (R - 1) * a ELSE 0) + (IF fc THEN (C - 1) * b ELSE 0), rows |-> IF fr THEN -a ELSE a, columns |-> IF fc THEN -b ELSE b, size |-> R * C * r.gap * r.gap]
PutStrided(m, r) ==
  LET R == Len(m)  C == Len(m[1])  y == Layout(R, C, r)
      at(i, j) == y.start + (i - 1) * y.rows + (j - 1) * y.columns IN
  [form |-> "strided", layout |-> y, R |-> R, C |-> C,
   buffer |-> [k \in 0..(y.size - 1) |-> IF \E i \in 1..R, j \in 1..C : at(i, j) = k THEN LET p == CHOOSE p \in (1..R) \X (1..C) : at(p[1], p[2]) = k IN m[p[1]][p[2]] ELSE Others]]
Turned(s) == [k \in 1..Len(s) |-> s[Len(s) + 1 - k]]
Entries(line, r) == LET e == SelectSeq([k \in 1..Len(line) |-> <<k, line[k]>>], LAMBDA p : r.zeros \/ p[2] # 0) IN IF r.turned THEN Turned(e) ELSE e
Across(m) == [j \in 1..Len(m[1]) |-> [i \in 1..Len(m) |-> m[i][j]]]
PutLists(m, r) == LET L == IF r.by = "rows" THEN m ELSE Across(m) IN
                  [form |-> "lists", by |-> r.by, R |-> Len(m), C |-> Len(m[1]), lines |-> [k \in 1..Len(L) |-> Entries(L[k], r)]]
Put(m, r) == IF r.form = "strided" THEN PutStrided(m, r) ELSE PutLists(m, r)
(* ---- reading ---- *)
Cell(s, i, j) ==
  IF s.form = "strided" THEN s.buffer[s.layout.start + (i - 1) * s.layout.rows + (j - 1) * s.layout.columns]
  ELSE LET line == IF s.by = "rows" THEN s.lines[i] ELSE s.lines[j]  at == IF s.by = "rows" THEN j ELSE i
           E == {k \in 1..Len(line) : line[k][1] = at} IN
       IF E = {} THEN 0 ELSE line[CHOOSE k \in E : TRUE][2]
Get(s) == [i \in 1..s.R |-> [j \in 1..s.C |-> Cell(s, i, j)]]
(* readers who do not look: cells in the order of the buffer; lists taken for lists of rows; positions of entries not looked at *)
Hasty(s) == IF s.form = "strided" THEN [i \in 1..s.R |-> [j \in 1..s.C |-> s.buffer[(i - 1) * s.C + j - 1]]] ELSE Get(s)
RowsOnly(s) == IF s.form = "lists" THEN Get([s EXCEPT !.by = "rows", !.lines = [k \in 1..s.R |-> IF k <= Len(s.lines) THEN s.lines[k] ELSE <<>>]]) ELSE Get(s)
=============================================================================
