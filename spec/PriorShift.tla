----------------------------- MODULE PriorShift -----------------------------
(* Bags that differ from the training set in the prevalences only: every training example of class c appears k[c] times.

   Rows of D are descriptions of the classes (any that a mixture of the classes has as the same mixture of descriptions):
   the description of such a bag is the mixture by its prevalences, so these explain it without error, and nothing else
   does when the rows are independent. *)
EXTENDS Rat, FiniteSets
True(m, k) == LET tot == RSum([c \in 1..Len(m) |-> RMul(m[c], k[c])]) IN Force([c \in 1..Len(m) |-> RDiv(RMul(m[c], k[c]), tot)])
Mixture(D, p) == Force([j \in 1..Len(D[1]) |-> RSum([c \in 1..Len(D) |-> RMul(p[c], D[c][j])])])
Gram(D) == Force([i \in 1..Len(D) |-> [j \in 1..Len(D) |-> RDot(D[i], D[j])]])
RECURSIVE RProd(_)
RProd(s) == IF Len(s) = 0 THEN 1 ELSE RMul(Head(s), RProd(Tail(s)))
(* independence, as a share of the largest determinant rows of such lengths can have *)
Independence(D) == LET G == Gram(D) lengths == RProd([i \in 1..Len(D) |-> G[i][i]]) IN
  IF REq(lengths, 0) THEN 0 ELSE RDiv(RDet(G), lengths)
(* the same of a matrix that is a Gram matrix already *)
IndependenceOf(G) == LET lengths == RProd([i \in 1..Len(G) |-> G[i][i]]) IN IF REq(lengths, 0) THEN 0 ELSE RDiv(RDet(G), lengths)
=============================================================================
