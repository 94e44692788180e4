----------------------------- MODULE TraceBase -----------------------------
(* Validation of a recorded trace of the implementation, with a total verdict.

   Trace is the recorded sequence of events (one JSON object per line of the file
   named by the environment variable TRACE).  A module that extends TraceBase and
   is bound to a specification supplies, as substitutions for the constants,

     Start           the specification state before the first event,
     Failing(st, e)  the names of the clauses of the specification that event e
                     breaks in specification state st ({}: e is allowed),
     After(st, e)    the specification state after e.

   Every event is consumed; the clauses it breaks are handed to the harness.  The
   trace is accepted when no clause fails and all events were consumed (the harness
   compares TLC's number of distinct states with Len(Trace) + 1). *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils, Emit

CONSTANTS Start, Failing(_, _), After(_, _)

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, st

Init == l = 1 /\ st = Start

Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l]
               f == Failing(st, e)
           IN /\ IF f = {} THEN TRUE ELSE EmitLine(ToJson([i |-> l, f |-> f]))
              /\ st' = After(st, e)
              /\ l' = l + 1

(* Named checks: If(c, "name") is the empty set when c holds. *)
If(c, name) == IF c THEN {} ELSE {name}
=============================================================================
