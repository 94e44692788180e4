----------------------------- MODULE MCStorage -----------------------------
(* An object is told tables in some storage, and asked about tables in some storage; it works with what its Reader reads. *)
EXTENDS Storage, Json, Emit
CONSTANTS Rows, Cols, Depth, Reader
Tables == [1..Rows -> [1..Cols -> {0, 1, 2}]]
(* two tables of the examples: contents 1 and 2 *)
Content == <<[i \in 1..Rows |-> [j \in 1..Cols |-> (i * Cols + j) % 3]], [i \in 1..Rows |-> [j \in 1..Cols |-> (i + 2 * j * j) % 3]]>>
Read(s) == CASE Reader = "whole" -> Get(s) [] Reader = "hasty" -> Hasty(s) [] OTHER -> RowsOnly(s)
VARIABLES known, which, hist, answers
vars == <<known, which, hist, answers>>
Init == known = <<>> /\ which = 0 /\ hist = <<>> /\ answers = {}
Do(op, c, r) == hist' = Append(hist, [op |-> op, c |-> c, r |-> r])
Fit(c, r) == known' = Read(Put(Content[c], r)) /\ which' = c /\ UNCHANGED answers /\ Do("fit", c, r)
Ask(c, r) == known # <<>> /\ answers' = answers \cup {<<which, c, <<known, Read(Put(Content[c], r))>>>>} /\ UNCHANGED <<known, which>> /\ Do("ask", c, r)
Next == Len(hist) < Depth /\ \E c \in {1, 2} : \E r \in Recipes : Fit(c, r) \/ Ask(c, r)
(* ---- the laws ---- *)
Faithful == \A a \in answers : a[3] = <<Content[a[1]], Content[a[2]]>>
Consistent == \A a, b \in answers : a[1] = b[1] /\ a[2] = b[2] => a[3] = b[3]
(* for all small tables (evaluated once) *)
EveryTable == hist = <<>> => \A m \in Tables : \A r \in Recipes : Get(Put(m, r)) = m
Useful == \E i \in 1..Len(hist) : hist[i].op = "ask"
Export == Len(hist) = Depth /\ Useful => EmitLine(ToJson(hist))
=============================================================================
