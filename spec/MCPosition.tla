----------------------------- MODULE MCPosition -----------------------------
(* All posterior rows over N classes in multiples of 1/D. *)
EXTENDS Ordinal
CONSTANTS N, D, NB
VARIABLE row
RECURSIVE Comps(_, _)
Comps(k, m) == IF k = 1 THEN {<<m>>} ELSE UNION {{<<x>> \o t : t \in Comps(k - 1, m - x)} : x \in 0..m}
PInit == row \in {[j \in 1..N |-> RFrac(c[j], D)] : c \in Comps(N, D)} /\ table = 0 /\ test = 0
PNext == FALSE /\ UNCHANGED <<row, table, test>>
InRange == RLe(1, Expected(row)) /\ RLe(Expected(row), N) /\ Position(row, N) = RNorm(Expected(row))
LeafAgrees == IsLeaf(row) => REq(Leaf(row), Expected(row))
OneBin == LET s == Position(row, N)  b == PositionBin(s, N, NB) IN
          /\ b \in 1..(NB * (N - 1)) /\ RLe(RAdd(1, RFrac(b - 1, NB)), s) /\ RLe(s, RAdd(1, RFrac(b, NB)))
PExport == EmitLine(ToJson([row |-> row]))
PSpec == PInit /\ [][PNext]_<<row, table, test>>
=============================================================================
