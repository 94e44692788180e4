------------------------------- MODULE Search -------------------------------
(* One-dimensional search for the prevalence with the least loss.

   A loss is a piecewise-linear function given by its knots.  Golden-section
   search is modelled on an integer scale: the interval [a, b] shrinks at one of
   two inner points c < d towards the better one.  Global search starts one
   golden-section search around every local minimum of a grid. *)
EXTENDS Rat, FiniteSets, TLC, Json, Emit

CONSTANTS N,        \* grid points 1..N
          Levels    \* possible losses at a grid point

(* exact value of a piecewise-linear loss at x; xs increasing *)
PWL(xs, ys, x) ==
  IF RLe(x, xs[1]) THEN RNorm(ys[1])
  ELSE IF RLe(xs[Len(xs)], x) THEN RNorm(ys[Len(ys)])
  ELSE LET i == CHOOSE i \in 1..(Len(xs) - 1) : RLt(xs[i], x) /\ RLe(x, xs[i + 1])
       IN RAdd(ys[i], RDiv(RMul(RSub(x, xs[i]), RSub(ys[i + 1], ys[i])), RSub(xs[i + 1], xs[i])))
RECURSIVE MinOf(_)
MinOf(s) == IF Len(s) = 1 THEN RNorm(s[1]) ELSE RMin(s[1], MinOf(Tail(s)))
RECURSIVE MaxOf(_)
MaxOf(s) == IF Len(s) = 1 THEN RNorm(s[1]) ELSE RMax(s[1], MaxOf(Tail(s)))
(* the least value of a piecewise-linear function on [lo, hi] is taken at a knot or an end *)
InKnots(xs, ys, lo, hi) == SelectSeq([i \in 1..Len(xs) |-> i], LAMBDA i : RLe(lo, xs[i]) /\ RLe(xs[i], hi))
Least(xs, ys, lo, hi) == LET k == InKnots(xs, ys, lo, hi)
                         IN MinOf(<<PWL(xs, ys, lo), PWL(xs, ys, hi)>> \o [i \in 1..Len(k) |-> ys[k[i]]])
-----------------------------------------------------------------------------
VARIABLES loss,     \* losses of the grid points
          a, b      \* interval of the golden-section search; <<0,0>> before
vars == <<loss, a, b>>

Argmins(s) == {i \in 1..Len(s) : \A j \in 1..Len(s) : s[i] <= s[j]}
LocalMinima(s) == {i \in 1..Len(s) : /\ (i = 1 \/ s[i] < s[i - 1])
                                     /\ (i = Len(s) \/ s[i] <= s[i + 1])}
(* strictly decreasing, then strictly increasing *)
UnimodalOn(s, lo, hi) == \E m \in lo..hi : /\ \A i \in lo..(m - 1) : s[i] > s[i + 1]
                                           /\ \A i \in m..(hi - 1) : s[i] < s[i + 1]
Init == loss \in [1..N -> Levels] /\ a = 0 /\ b = 0
Begin == a = 0 /\ a' = 1 /\ b' = N /\ UNCHANGED loss
Shrink == /\ a > 0 /\ b - a >= 3
          /\ \E c \in (a + 1)..(b - 2) : \E d \in (c + 1)..(b - 1) :
               IF loss[c] < loss[d] THEN a' = a /\ b' = d ELSE a' = c /\ b' = b
          /\ UNCHANGED loss
Next == Begin \/ Shrink

(* a unimodal loss keeps its minimiser inside the interval, whatever inner points are chosen *)
Bracketed == a > 0 /\ UnimodalOn(loss, 1, N) => Argmins(loss) \subseteq a..b
(* the best local minimum of the grid is a global minimum of the grid *)
LocalSuffice == LocalMinima(loss) \cap Argmins(loss) # {}
Export == a = 0 => EmitLine(ToJson([loss |-> loss]))
=============================================================================
