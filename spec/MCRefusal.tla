----------------------------- MODULE MCRefusal -----------------------------
(* An object that checks before it changes anything; with ~Careful a question it refuses has already replaced what it knew. *)
EXTENDS Refusal, Json, Emit
CONSTANTS Data, Bags, Depth, Careful
VARIABLES known, clear, hist
vars == <<known, clear, hist>>
Init == known = Nothing /\ clear = TRUE /\ hist = <<>>
Do(op, what, said) == hist' = Append(hist, [op |-> op, what |-> what, said |-> said])
Fit(d) == known' = d /\ clear' = TRUE /\ Do("fit", ToString(d), "done")
BadFit(k) == known' \in {known, Nothing} /\ clear' = FALSE /\ Do("fit", k, "refused")
Ask(b) == UNCHANGED <<known, clear>> /\ Do("ask", ToString(b), IF known = Nothing THEN "refused" ELSE "from " \o ToString(known))
BadAsk(k) == known' = (IF Careful THEN known ELSE Nothing) /\ UNCHANGED clear /\ Do("ask", k, "refused")
Next == Len(hist) < Depth /\ (\/ \E d \in Data : Fit(d) \/ \E k \in {"nan", "short"} : BadFit(k)
                              \/ \E b \in Bags : Ask(b) \/ \E k \in {"nan", "empty"} : BadAsk(k))
Ops(h, op, good) == {i \in 1..Len(h) : h[i].op = op /\ (h[i].what \in BadData \cup BadBags) # good}
LastFit(h, i) == LET F == {k \in 1..(i - 1) : h[k].op = "fit"} IN IF F = {} THEN 0 ELSE CHOOSE k \in F : \A j \in F : j <= k
(* every answer is earned by the last fit; every question that can be answered is, whatever was refused before *)
Earned == \A i \in Ops(hist, "ask", TRUE) : LET k == LastFit(hist, i) IN
            IF k = 0 THEN hist[i].said = "refused" ELSE hist[k].said = "done" => hist[i].said = "from " \o hist[k].what
NothingInvented == \A i \in Ops(hist, "ask", FALSE) \cup Ops(hist, "fit", FALSE) : hist[i].said = "refused"
Useful == \E i \in Ops(hist, "ask", TRUE) : LastFit(hist, i) # 0 /\ Ops(SubSeq(hist, 1, i - 1), "ask", FALSE) \cup Ops(SubSeq(hist, 1, i - 1), "fit", FALSE) # {}
Export == Len(hist) = Depth /\ Useful => EmitLine(ToJson([i \in 1..Len(hist) |-> <<hist[i].op, hist[i].what>>]))
=============================================================================
