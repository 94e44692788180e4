------------------------------ MODULE Figures ------------------------------
(* Data files, scaling, and figures of experiments.

   A line figure has one line for each experiment, from the bottom to the top in the order of the experiments or of their
   first prevalences; a line is a row of contiguous pieces from 0 to 1, one for each class, in the order of the classes, as
   long as its prevalence and with its colour.  A box figure has one box for each system at positions 1, 2, ..., showing the quartiles of
   its errors, whiskers to the last errors within 1.5 interquartile ranges, and the errors beyond. *)
EXTENDS Rat, Sequences, FiniteSets, SequencesExt
(* ---- lines of pieces [from, to, colour] ---- *)
Line(row, palette) == [j \in 1..Len(row) |-> [from |-> RSum(SubSeq(row, 1, j - 1)), to |-> RSum(SubSeq(row, 1, j)), colour |-> palette[((j - 1) % Len(palette)) + 1]]]
Visible(line) == SelectSeq(line, LAMBDA p : RLt("1/1000000000000", RSub(p.to, p.from)))
SamePiece(a, b) == RClose(a.from, b.from, "1/1000000000") /\ RClose(a.to, b.to, "1/1000000000") /\ a.colour = b.colour
SameVisible(v, w) == Len(v) = Len(w) /\ \A i \in 1..Len(v) : SamePiece(v[i], w[i])
SameLine(a, b) == SameVisible(Visible(a), Visible(b))
Whole(line) == line # <<>> => /\ REq(line[1].from, 0) /\ \A i \in 1..(Len(line) - 1) : REq(line[i].to, line[i + 1].from)
First(order, rows) == [i \in 1..Len(rows) |-> rows[i][1]]
InOrder(order, s) == \A i \in 1..(Len(s) - 1) : order = "ascending" => RLe(s[i], s[i + 1])
InReverse(order, s) == \A i \in 1..(Len(s) - 1) : order = "descending" => RLe(s[i + 1], s[i])
(* may the rows be drawn in the order ix (a permutation)? *)
Arranged(order, rows, ix) == LET s == [i \in 1..Len(ix) |-> rows[ix[i]][1]] IN
                             /\ order = "none" => \A i \in 1..Len(ix) : ix[i] = i
                             /\ InOrder(order, s) /\ InReverse(order, s)
(* rows drawn as lines: every row once (rows drawn in the same way are interchangeable), as arranged *)
Shown(order, rows, lines, palette) ==
  /\ Len(lines) = Len(rows)
  /\ LET want == Force([i \in 1..Len(rows) |-> Visible(Line(rows[i], palette))])
         got == Force([i \in 1..Len(lines) |-> Visible(lines[i])]) IN
     IF order = "none" THEN \A i \in 1..Len(rows) : SameVisible(want[i], got[i])
     ELSE LET of == Force([i \in 1..Len(lines) |-> {k \in 1..Len(rows) : SameVisible(want[k], got[i])}]) IN
          /\ \A i \in 1..Len(lines) : of[i] # {} /\ Cardinality({k \in 1..Len(lines) : of[k] = of[i]}) = Cardinality(of[i])
          /\ LET s == [i \in 1..Len(lines) |-> rows[CHOOSE k \in of[i] : TRUE][1]] IN InOrder(order, s) /\ InReverse(order, s)
(* ---- boxes ---- *)
Sorted(v) == SortSeq(v, LAMBDA a, b : RLt(a, b))
(* linear interpolation between order statistics *)
Quantile(v, num, den) == LET s == Sorted(v)  h == RMul(RFrac(num, den), Len(v) - 1)  k == RInt(RFloor(h)) IN
                         IF k + 1 >= Len(v) THEN s[Len(v)] ELSE RAdd(s[k + 1], RMul(RSub(h, k), RSub(s[k + 2], s[k + 1])))
Box(v) == LET q1 == Force(Quantile(v, 1, 4))  q3 == Force(Quantile(v, 3, 4))  r == RMul("3/2", RSub(q3, q1))
              inside == SelectSeq(Sorted(v), LAMBDA x : RLe(RSub(q1, r), x) /\ RLe(x, RAdd(q3, r))) IN
          [q1 |-> q1, median |-> Quantile(v, 1, 2), q3 |-> q3,
           low |-> IF inside = <<>> THEN q1 ELSE RMin(q1, inside[1]), high |-> IF inside = <<>> THEN q3 ELSE RMax(q3, inside[Len(inside)]),
           beyond |-> SelectSeq(Sorted(v), LAMBDA x : RLt(x, RSub(q1, r)) \/ RLt(RAdd(q3, r), x))]
(* the values at which something is drawn *)
Marks(b) == {RNorm(b.q1), RNorm(b.median), RNorm(b.q3), RNorm(b.low), RNorm(b.high)} \cup {RNorm(b.beyond[i]) : i \in 1..Len(b.beyond)}
SameMarks(a, b) == (\A x \in a : \E y \in b : RClose(x, y, "1/1000000000")) /\ (\A y \in b : \E x \in a : RClose(x, y, "1/1000000000"))
(* ---- scaling: by mean and standard deviation of the training set, for every feature ---- *)
Column(X, j) == [i \in 1..Len(X) |-> X[i][j]]
Spread(v) == LET m == VMean(v) IN RSqrt(VMean([i \in 1..Len(v) |-> RSq(RSub(v[i], m))]))
Scaled(X, Z) == LET n == Len(X[1])
                    m == Force([j \in 1..n |-> VMean(Column(X, j))])
                    s == Force([j \in 1..n |-> Spread(Column(X, j))]) IN
                [i \in 1..Len(Z) |-> Force([j \in 1..n |-> RDiv(RSub(Z[i][j], m[j]), IF REq(s[j], 0) THEN 1 ELSE s[j])])]
(* ---- files: the last column holds the classes ---- *)
Features(rows) == [i \in 1..Len(rows) |-> SubSeq(rows[i], 1, Len(rows[i]) - 1)]
Classes(rows) == [i \in 1..Len(rows) |-> rows[i][Len(rows[i])]]
=============================================================================
