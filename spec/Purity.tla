------------------------------- MODULE Purity -------------------------------
(* What calls of the library may do to objects of the caller.

   The caller owns arrays (examples, labels, predictions, prevalences, bags) and templates (quantifiers, estimators and
   regressors given to be copied).  world[o] is the contents of object o, a text.  A call may read every object it is
   given, in whatever layout it is stored; it makes copies of templates and trains those; it writes nothing of the caller. *)
EXTENDS Naturals, Sequences, FiniteSets
Frame(before, after) == DOMAIN after = DOMAIN before /\ \A o \in DOMAIN before : after[o] = before[o]
=============================================================================
