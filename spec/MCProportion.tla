---------------------------- MODULE MCProportion ----------------------------
(* Every problem of a few examples and every sequence of repetitions and changes of units. *)
EXTENDS Proportion, TLC, Json, Emit
CONSTANTS N, Train, Bag, Top, Bins, Den, Times, Depth, Judge
VARIABLES t0, b0, t, b, tr, te, hist
vars == <<t0, b0, t, b, tr, te, hist>>
Ex == [y : 1..N, x : 0..Top]
Has(z) == \A c \in 1..N : \E k \in 1..Train : z[k].y = c
InOrder(z) == \A k \in 1..(Train - 1) : z[k].y * (Top + 1) + z[k].x <= z[k + 1].y * (Top + 1) + z[k + 1].x
Init ==
  /\ IF Judge THEN /\ t0 \in {z \in [1..Train -> Ex] : Has(z) /\ InOrder(z)} /\ b0 \in {z \in [1..Bag -> 0..Top] : \A k \in 1..(Bag - 1) : z[k] <= z[k + 1]}
     ELSE t0 = <<>> /\ b0 = <<>>
  /\ t = t0 /\ b = b0 /\ tr = 1 /\ te = 1 /\ hist = <<>>
Op(o, k) == hist' = Append(hist, [op |-> o, by |-> k])
Next == Len(hist) < Depth /\ UNCHANGED <<t0, b0>> /\
  \/ \E k \in Times : tr * k <= 6 /\ t' = Rep(t, k) /\ tr' = tr * k /\ UNCHANGED <<b, te>> /\ Op("train", k)
  \/ \E k \in Times : te * k <= 6 /\ b' = Rep(b, k) /\ te' = te * k /\ UNCHANGED <<t, tr>> /\ Op("bag", k)
  \/ \E k \in Times : t' = UnitT(t, k, 0) /\ b' = Unit(b, k, 0) /\ UNCHANGED <<tr, te>> /\ Op("scale", k)
  \/ \E k \in Times : t' = UnitT(t, 1, k) /\ b' = Unit(b, 1, k) /\ UNCHANGED <<tr, te>> /\ Op("shift", k)
  \/ UNCHANGED <<t, b, tr, te>> /\ Op("features", 1)
BinnedStays == Judge => Binned(t, b, N, Bins, Den) = Binned(t0, b0, N, Bins, Den)
EnergyStays == Judge => Energy(t, b, N, Den) = Energy(t0, b0, N, Den)
RankedStays == Judge /\ tr = te => Ranked(t, b, N, Den) = Ranked(t0, b0, N, Den)
View == <<t0, b0, t, b, tr, te, Len(hist)>>
Export == Len(hist) = Depth => EmitLine(ToJson(hist))
=============================================================================
