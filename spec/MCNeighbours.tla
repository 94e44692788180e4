---------------------------- MODULE MCNeighbours ----------------------------
(* Training examples arrive one by one on a line; then a point is asked. *)
EXTENDS Neighbours, TLC, Json, Emit
CONSTANTS NC, Places, MaxTrain, K
VARIABLES pts, y, asked
vars == <<pts, y, asked>>
Init == pts = <<>> /\ y = <<>> /\ asked = -1
Key(x, c) == x * NC + c
Learn(x, c) == /\ asked = -1 /\ Len(y) < MaxTrain
               /\ (IF y = <<>> THEN TRUE ELSE Key(pts[Len(y)][1], y[Len(y)]) <= Key(x, c))
               /\ pts' = Append(pts, <<x>>) /\ y' = Append(y, c) /\ UNCHANGED asked
Complete == Len(y) >= K /\ \A c \in 1..NC : \E i \in 1..Len(y) : y[i] = c
Ask(x) == asked = -1 /\ Complete /\ asked' = x /\ UNCHANGED <<pts, y>>
Next == \E x \in Places : Ask(x) \/ \E c \in 1..NC : Learn(x, c)
D == Distances(2, pts, <<asked>>)
Ready == asked # -1
(* what is reported is a distribution over the classes, and the predicted class has its largest share *)
Distribution == Ready => \A r \in Rows(2, pts, y, NC, K, <<asked>>) : IsDistribution(r, 0)
Agree == Ready => \A S \in Nearest(D, K) : LET t == Totals(S, y, NC) IN
            \A c \in Winners(t) : \A j \in 1..NC : RLe(Share(t)[j], RAdd(Share(t)[c], "1/1000000"))
Sets == Ready => Nearest(D, K) # {} /\ \A S \in Nearest(D, K) : Cardinality(S) = K /\ \A i \in S, j \in (1..Len(y)) \ S : RLe(D[i], D[j])
(* with equally frequent classes the plain majority decides *)
Majority == Ready /\ (\A c, d \in 1..NC : REq(Weight(y, c), Weight(y, d))) =>
   \A S \in Nearest(D, K) : \A c \in Winners(Totals(S, y, NC)) : \A j \in 1..NC :
      Cardinality({i \in S : y[i] = j}) <= Cardinality({i \in S : y[i] = c})
(* all examples as neighbours: two classes always draw *)
Balanced == Ready /\ NC = 2 /\ K = Len(y) => Winners(Totals(1..K, y, NC)) = {1, 2}
Export == Ready => EmitLine(ToJson([pts |-> pts, y |-> y, asked |-> asked]))
=============================================================================
