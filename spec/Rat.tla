-------------------------------- MODULE Rat --------------------------------
(* Exact rational arithmetic of unbounded size.

   TLC's integers have 32 bits, which neither holds the exact value of an IEEE
   double nor a product of a few denominators.  A rational is therefore a string
   "n/d" (or "n"), or a TLA+ integer.  The operators below are evaluated by the
   Java class Rat (java/Rat.java, BigInteger); results are normalised, so "="
   between two results is numeric equality.  The right-hand sides given here
   only document arity: TLC replaces all of them when it loads the module.

   "nan", "inf" and "-inf" may occur as observations of the implementation:
   RNum is FALSE for them and RLe, RLt, REq, RClose are FALSE when one of their
   arguments is not a number, so that a verdict on a trace is always defined. *)
EXTENDS Integers, Sequences

Force(v)         == v                             \* v, evaluated at once (TLC evaluates functions lazily)
RNum(a)          == CHOOSE b \in BOOLEAN : TRUE   \* a is a number
RNorm(a)         == a                             \* normal form
RAdd(a, b)       == <<"+", a, b>>
RSub(a, b)       == <<"-", a, b>>
RMul(a, b)       == <<"*", a, b>>
RDiv(a, b)       == <<"/", a, b>>
RNeg(a)          == <<"neg", a>>
RAbs(a)          == <<"abs", a>>
RMin(a, b)       == <<"min", a, b>>
RMax(a, b)       == <<"max", a, b>>
RLe(a, b)        == CHOOSE x \in BOOLEAN : TRUE   \* a <= b
RLt(a, b)        == CHOOSE x \in BOOLEAN : TRUE   \* a < b
REq(a, b)        == CHOOSE x \in BOOLEAN : TRUE   \* a = b
RClose(a, b, t)  == CHOOSE x \in BOOLEAN : TRUE   \* |a - b| <= t
RSum(s)          == <<"sum", s>>                  \* of a sequence
RDot(s, t)       == <<"dot", s, t>>               \* scalar product of two sequences
RFloor(a)        == <<"floor", a>>
RInt(a)          == 0                             \* an integral rational as TLA+ integer
RRound(a, k)     == <<"round", a, k>>             \* to k decimals
RSqrt(a)         == <<"sqrt", a>>                 \* exact, or to 36 decimals
RLn(a)           == <<"ln", a>>                   \* to 36 decimals

(* the overrides are loaded *)
ASSUME RAdd("1/2", "1/3") = "5/6"
-----------------------------------------------------------------------------
(* Derived operators, in TLA+ *)
RGe(a, b) == RLe(b, a)
RGt(a, b) == RLt(b, a)
RClip(a, lo, hi) == RMin(RMax(a, lo), hi)
RSq(a) == RMul(a, a)
RFrac(n, d) == RDiv(n, d)

(* Vectors are sequences of rationals; a matrix is a sequence of rows. *)
VAllNum(v)     == \A i \in DOMAIN v : RNum(v[i])
VMap2(Op(_, _), v, w) == Force([i \in 1..Len(v) |-> Op(v[i], w[i])])
VAdd(v, w)     == Force([i \in 1..Len(v) |-> RAdd(v[i], w[i])])
VSub(v, w)     == Force([i \in 1..Len(v) |-> RSub(v[i], w[i])])
VScale(c, v)   == Force([i \in 1..Len(v) |-> RMul(c, v[i])])
VAbs(v)        == Force([i \in 1..Len(v) |-> RAbs(v[i])])
VClip01(v)     == Force([i \in 1..Len(v) |-> RClip(v[i], 0, 1)])
VMean(v)       == RDiv(RSum(v), Len(v))
VClose(v, w, t) == /\ Len(v) = Len(w)
                   /\ \A i \in 1..Len(v) : RClose(v[i], w[i], t)
VNormalise(v)  == LET s == RSum(v) IN IF RLt(0, s) THEN Force([i \in 1..Len(v) |-> RDiv(v[i], s)]) ELSE Force(v)
VPrefixSums(v) == Force([i \in 1..Len(v) |-> RSum(SubSeq(v, 1, i))])
MCol(M, j)     == Force([i \in 1..Len(M) |-> M[i][j]])
MVec(M, v)     == Force([i \in 1..Len(M) |-> RDot(M[i], v)])
MTranspose(M)  == Force([j \in 1..Len(M[1]) |-> MCol(M, j)])
RECURSIVE RDet(_)
MMinor(M, r, c) == LET rows == [i \in 1..(Len(M) - 1) |-> M[IF i < r THEN i ELSE i + 1]]
                   IN Force([i \in 1..(Len(M) - 1) |->
                         [j \in 1..(Len(M) - 1) |-> rows[i][IF j < c THEN j ELSE j + 1]]])
RDet(M) == IF Len(M) = 1 THEN RNorm(M[1][1])
           ELSE RSum([j \in 1..Len(M) |->
                   LET t == RMul(M[1][j], RDet(MMinor(M, 1, j))) IN IF j % 2 = 1 THEN t ELSE RNeg(t)])
(* Cramer's rule: the solution of M x = v for a non-singular M *)
RSolve(M, v) == LET d == RDet(M) IN
   Force([j \in 1..Len(M) |-> RDiv(RDet(Force([i \in 1..Len(M) |-> [M[i] EXCEPT ![j] = v[i]]])), d)])

(* v is a probability distribution up to tolerance t *)
IsDistribution(v, t) == /\ VAllNum(v)
                        /\ \A i \in 1..Len(v) : RLe(RNeg(t), v[i])
                        /\ RClose(RSum(v), 1, t)
=============================================================================
