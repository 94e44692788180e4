----------------------------- MODULE MCFigures -----------------------------
(* Drawing the lines of a small matrix of prevalences piece by piece: whatever the order, the figure shows the matrix.
   A careless draughtsman does not go back to the left before a new line. *)
EXTENDS Figures, TLC, Json, Emit
CONSTANTS NC, Den, MaxRows, Careful
VARIABLES rows, order, arrangement, pen, lines
vars == <<rows, order, arrangement, pen, lines>>
Parts == {v \in [1..NC -> 0..Den] : LET S[i \in 0..NC] == IF i = 0 THEN 0 ELSE S[i - 1] + v[i] IN S[NC] = Den}
Prevalences == {[j \in 1..NC |-> RFrac(v[j], Den)] : v \in Parts}
Palette == [j \in 1..NC |-> j]
Perms(n) == {f \in [1..n -> 1..n] : \A i, j \in 1..n : i # j => f[i] # f[j]}
Init == /\ \E k \in 1..MaxRows : rows \in [1..k -> Prevalences]
        /\ order \in {"none", "ascending", "descending"}
        /\ arrangement \in {f \in Perms(Len(rows)) : Arranged(order, rows, f)}
        /\ pen = 0 /\ lines = <<>>
Current == rows[arrangement[Len(lines)]]
NewLine == /\ Len(lines) < Len(rows) /\ (IF lines = <<>> THEN TRUE ELSE Len(lines[Len(lines)]) = NC)
           /\ lines' = Append(lines, <<>>) /\ pen' = (IF Careful THEN 0 ELSE pen) /\ UNCHANGED <<rows, order, arrangement>>
Stroke == /\ lines # <<>> /\ Len(lines[Len(lines)]) < NC
          /\ LET j == Len(lines[Len(lines)]) + 1  to == RAdd(pen, Current[j]) IN
             /\ lines' = [lines EXCEPT ![Len(lines)] = Append(@, [from |-> pen, to |-> to, colour |-> Palette[j]])]
             /\ pen' = to
          /\ UNCHANGED <<rows, order, arrangement>>
Next == NewLine \/ Stroke
Done == IF Len(lines) = Len(rows) THEN Len(lines[Len(lines)]) = NC ELSE FALSE
Contiguous == \A i \in 1..Len(lines) : Whole(lines[i])
Complete == Done => \A i \in 1..Len(lines) : REq(lines[i][NC].to, 1)
Faithful == Done => Shown(order, rows, lines, Palette)
(* a figure in which two different lines are exchanged shows something else, when no order was asked for *)
Telling == Done /\ order = "none" => \A i, j \in 1..Len(lines) : ~SameLine(lines[i], lines[j]) =>
             ~Shown(order, rows, [lines EXCEPT ![i] = lines[j], ![j] = lines[i]], Palette)
Export == Done => EmitLine(ToJson([rows |-> rows, order |-> order]))
=============================================================================
