----------------------------- MODULE MCCounting -----------------------------
(* bounds for exhaustive exploration: posteriors in quarters (2 classes) or halves *)
EXTENDS Counting
Quarters2 == {<<RFrac(a, 4), RFrac(4 - a, 4)>> : a \in 0..4}
Halves3 == {<<RFrac(a, 2), RFrac(b, 2), RFrac(2 - a - b, 2)>> : <<a, b>> \in {x \in (0..2) \X (0..2) : x[1] + x[2] <= 2}}
=============================================================================
