------------------------------ MODULE Simplex ------------------------------
(* Distributions over n classes and optimality over all of them.

   A returned prevalence vector p is checked to be a minimiser of an objective by
   comparing it with (i) every point of a regular grid of the simplex, which
   includes its vertices, and (ii) every point reached from p by moving mass d from
   one class to another, for several d.  All objectives of the library are convex
   in p, so a point that no small exchange of mass and no grid point improves is a
   minimiser up to the tolerance. *)
EXTENDS Rat, FiniteSets

RECURSIVE Compositions(_, _)
(* all sequences of n naturals with sum m *)
Compositions(n, m) == IF n = 1 THEN {<<m>>}
                      ELSE UNION {{<<a>> \o c : c \in Compositions(n - 1, m - a)} : a \in 0..m}

GridStep(n) == IF n = 2 THEN 20 ELSE IF n = 3 THEN 8 ELSE 4
Grid(n) == {[i \in 1..n |-> RFrac(c[i], GridStep(n))] : c \in Compositions(n, GridStep(n))}

(* p made feasible: clipped to be non-negative and normalised *)
Project(p) == VNormalise(Force([i \in 1..Len(p) |-> RMax(p[i], 0)]))

Steps == {"1/10", "1/100", "1/1000"}
Exchange(p, i, j, d) == LET m == RMin(d, p[j]) IN [p EXCEPT ![i] = RAdd(p[i], m), ![j] = RSub(p[j], m)]
Neighbours(p) == {Exchange(p, x[1], x[2], x[3]) : x \in {z \in (1..Len(p)) \X (1..Len(p)) \X Steps : z[1] # z[2]}}

(* no distribution is better than p by more than tol *)
IsMinimiser(Obj(_), p, tol) ==
  LET o == RAdd(Obj(Project(p)), tol) IN
  /\ RNum(o)
  /\ \A g \in Grid(Len(p)) : RLe(RSub(o, tol), RAdd(Obj(g), tol))
  /\ \A g \in Neighbours(Project(p)) : RLe(RSub(o, tol), RAdd(Obj(g), tol))

(* the distances between a target vector t and the mixture M q of the columns of M *)
ObjL1(M, t, q) == RSum(VAbs(VSub(t, MVec(M, q))))
ObjL2(M, t, q) == LET d == VSub(t, MVec(M, q)) IN RDot(d, d)
(* one minus the Bhattacharyya coefficient; the squared Hellinger distance of
   vectors of equal mass is twice this *)
ObjHD(M, t, q) == RSub(1, RSum([i \in 1..Len(t) |-> RSqrt(RMul(t[i], RDot(M[i], q)))]))
ObjOf(dist, M, t, q) == CASE dist = "L1" -> ObjL1(M, t, q)
                          [] dist = "L2" -> ObjL2(M, t, q)
                          [] dist = "HD" -> ObjHD(M, t, q)
=============================================================================
