----------------------------- MODULE MCDefaults -----------------------------
(* Making objects: each constructor fills in what was left out and hands everything, explicitly, to the one above it. *)
EXTENDS Defaults, Json, Emit
CONSTANTS Slots, Depth, Careful, Judge
VARIABLES kind, given, at, has, hist
vars == <<kind, given, at, has, hist>>
Other == "other"
Subs(k) == UNION {[S -> {Other}] : S \in SUBSET DOMAIN Documented[k]}
Init == /\ IF Judge THEN kind \in Kinds /\ given \in {g \in Subs(kind) : Cardinality(DOMAIN g) <= 3} ELSE kind = "AC" /\ given = <<>>
        /\ at = "start" /\ has = <<>> /\ hist = <<>>
(* the constructor called *)
Call == Judge /\ at = "start" /\ at' = kind /\ has' = Effective(kind, given) /\ UNCHANGED <<kind, given, hist>>
(* the one above; a careless one forgets a setting of its caller and uses its own default *)
Up == Judge /\ at = kind /\ Above(kind) # kind /\ at' = Above(kind) /\
      (\/ has' = (has @@ Fixed(kind)) @@ Documented[Above(kind)]
       \/ ~Careful /\ \E p \in DOMAIN has : has' = ([q \in DOMAIN has \ {p} |-> has[q]] @@ Fixed(kind)) @@ Documented[Above(kind)])
      /\ UNCHANGED <<kind, given, hist>>
(* how each setting of the next object of a history is given: left out, as documented, or otherwise *)
Make == ~Judge /\ Len(hist) < Depth /\ \E h \in [1..Slots -> {"left out", "documented", "other"}] : hist' = Append(hist, h) /\ UNCHANGED <<kind, given, at, has>>
Next == Call \/ Up \/ Make
Reached == at = Above(kind) /\ at # "start" => <<at, has>> = Canon(kind, given)
Explicit == Judge => LET all == given @@ Documented[kind] IN Same(kind, all, given)
Distinct == Judge => \A p \in DOMAIN given : ~Same(kind, given, [q \in DOMAIN given \ {p} |-> given[q]])
Export == Len(hist) = Depth => EmitLine(ToJson(hist))
=============================================================================
