---------------------------- MODULE MCRegression ----------------------------
(* The life of a regression quantifier: examples with a class and a descriptor value, bags of them, a fit that describes
   every bag, questions about test bags of any size, refits with other data and bags. *)
EXTENDS Regression, TLC, Json, Emit
CONSTANTS N, NCl, Cuts, Vals, Sizes, NBags, Depth
VARIABLES y, x,      \* class and value of the training examples
          bags,      \* the generated bags
          dx, dy,    \* what the regressors learnt from
          asked,     \* descriptions asked
          hist
vars == <<y, x, bags, dx, dy, asked, hist>>
Rows == [i \in 1..N |-> <<x[i]>>]
Init == /\ y = <<>> /\ x = <<>> /\ bags = <<>> /\ dx = <<>> /\ dy = <<>> /\ asked = <<>> /\ hist = <<>>
Fit == \E yy \in [1..N -> 1..NCl], xx \in [1..N -> Vals], s \in Sizes : \E bb \in [1..NBags -> [1..s -> 1..N]] :
         /\ {yy[i] : i \in 1..N} = 1..NCl
         /\ \A i \in 1..(N - 1) : yy[i] <= yy[i + 1]
         /\ \A b \in 1..NBags : \A k \in 1..(s - 1) : bb[b][k] <= bb[b][k + 1]
         /\ y' = yy /\ x' = xx /\ bags' = bb
         /\ LET r == [i \in 1..N |-> <<xx[i]>>] IN dx' = Force([b \in 1..NBags |-> RowOf(r, bb[b], <<Cuts>>)])
         /\ dy' = Force([b \in 1..NBags |-> Targets(yy, bb[b], NCl)])
         /\ hist' = Append(hist, [y |-> yy, x |-> xx, bags |-> bb, tests |-> <<>>]) /\ asked' = <<>>
(* a test bag: multiples of training bag b *)
Ask(b, m) == /\ bags # <<>> /\ asked = <<>>
             /\ LET t == [k \in 1..(m * Len(bags[b])) |-> bags[b][((k - 1) % Len(bags[b])) + 1]] IN
                  /\ asked' = <<b, RowOf(Rows, t, <<Cuts>>)>>
                  /\ hist' = [hist EXCEPT ![Len(hist)].tests = <<t>>]
             /\ UNCHANGED <<y, x, bags, dx, dy>>
Next == (Len(hist) < Depth /\ bags = <<>> /\ Fit) \/ (bags # <<>> /\ \E b \in 1..NBags, m \in 1..2 : Ask(b, m))
Spec == Init /\ [][Next]_vars
(* descriptions and targets are distributions *)
Distributions == \A b \in 1..Len(dx) : IsDistribution(dx[b], 0) /\ IsDistribution(dy[b], 0)
(* a test bag equal to a training bag, also one of another size, has the description learnt from *)
SameBagSameRow == asked # <<>> => asked[2] = dx[asked[1]]
Export == asked # <<>> => EmitLine(ToJson(hist))
C2 == <<"1/2">>
C3 == <<"1/4", "1/2">>
V3 == {"0", "1/4", "1/2"}
V2 == {"0", "1/2"}
(* outputs of the regressors *)
Outs == {"-1/2", "0", "1/4", "1", "3/2"}
ASSUME \A n \in {2, 3} : \A raw \in [1..Regressors(n) -> Outs] :
          LET c == VClip01(Full(raw, n)) IN RLt(0, RSum(c)) => IsDistribution(VNormalise(c), 0)
(* two classes always leave something to normalise *)
ASSUME \A r \in Outs : RLt(0, RSum(VClip01(Full(<<r>>, 2))))
=============================================================================
