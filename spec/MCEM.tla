-------------------------------- MODULE MCEM --------------------------------
EXTENDS EM
Q2 == {<<RFrac(a, 4), RFrac(4 - a, 4)>> : a \in 0..4}
H3 == {<<RFrac(a, 4), RFrac(b, 4), RFrac(4 - a - b, 4)>> : <<a, b>> \in {x \in (0..4) \X (0..4) : x[1] + x[2] <= 4 /\ (x[1] # 1)}}
=============================================================================
