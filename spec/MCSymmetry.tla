----------------------------- MODULE MCSymmetry -----------------------------
(* Every problem of a few examples and every sequence of transformations of it. *)
EXTENDS Symmetry, TLC, Json, Emit
CONSTANTS N, Train, Bag, Names, Depth, Judge, Den, ClassesMove
VARIABLES t0, b0, t, b, sigma, hist
vars == <<t0, b0, t, b, sigma, hist>>
Ex == [y : 1..N, f : 1..N]
Init ==
  /\ IF Judge THEN /\ t0 \in {x \in [1..Train -> Ex] : \A c \in 1..N : OfClass(x, c) > 0} /\ b0 \in [1..Bag -> 1..N]
     ELSE /\ t0 = [k \in 1..Train |-> [y |-> (k % N) + 1, f |-> 1]] /\ b0 = [k \in 1..Bag |-> (k % N) + 1]
  /\ t = t0 /\ b = b0 /\ sigma = Identity(N) /\ hist = <<>>
Op(o, i, j, w) == hist' = Append(hist, [op |-> o, i |-> i, j |-> j, how |-> w])
Next == Len(hist) < Depth /\ UNCHANGED <<t0, b0>> /\
  \/ \E i, j \in 1..Train : i < j /\ t' = Swap(t, i, j) /\ UNCHANGED <<b, sigma>> /\ Op("train", i, j, "swap")
  \/ t' = Turn(t) /\ UNCHANGED <<b, sigma>> /\ Op("train", 0, 0, "turn")
  \/ t' = InOrder(t, LAMBDA e : e.y) /\ UNCHANGED <<b, sigma>> /\ Op("train", 0, 0, "sort")
  \/ \E i, j \in 1..Bag : i < j /\ b' = Swap(b, i, j) /\ UNCHANGED <<t, sigma>> /\ Op("bag", i, j, "swap")
  \/ b' = Turn(b) /\ UNCHANGED <<t, sigma>> /\ Op("bag", 0, 0, "turn")
  \/ \E m \in Names : UNCHANGED <<t, b, sigma>> /\ Op("names", 0, 0, m)
  \/ \E i, j \in 1..N : ClassesMove /\ i < j /\ t' = ExchangeTrain(t, i, j) /\ b' = ExchangeBag(b, i, j)
       /\ sigma' = Exchange(sigma, i, j) /\ Op("classes", i, j, "")
CountingMoves == Judge => Share(b, N) = Moved(sigma, Share(b0, N))
MatchingMoves == Judge => Matching(t, b, N, Den) = {Moved(sigma, p) : p \in Matching(t0, b0, N, Den)}
(* the ordinal method is tied to the order of classes: only its exact reversal keeps it *)
OrdinalStays == Judge /\ sigma = Identity(N) => OrdinalMatching(t, b, N, Den) = OrdinalMatching(t0, b0, N, Den)
OrdinalTurns == Judge /\ sigma = [c \in 1..N |-> N + 1 - c] => OrdinalMatching(t, b, N, Den) = {Moved(sigma, p) : p \in OrdinalMatching(t0, b0, N, Den)}
View == <<t0, b0, t, b, sigma, Len(hist)>>
Export == Len(hist) = Depth => EmitLine(ToJson(hist))
=============================================================================
