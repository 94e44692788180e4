----------------------------- MODULE BagSharing -----------------------------
(* Reproducibility and sharing of generated bags.

   A generator draws its bags at the first request, from its seed and the data of that
   request, and is frozen from then on.  Other activities of the program draw from the
   global source of random numbers.  Consumers (ensembles, regression quantifiers) use a
   generator of their own or a shared one.

   A set of bags is identified by what determines it: the settings, the seed and the data. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, Emit
CONSTANTS Gens,      \* generators; generator g has setting Setting[g] and seed Seed[g]
          Setting, Seed,
          Datas,     \* data sets
          Depth

VARIABLES frozen,    \* generator -> <<>> or the key of its bags
          noise,     \* random numbers drawn elsewhere
          hist       \* operations so far
vars == <<frozen, noise, hist>>
Key(g, d) == <<Setting[g], Seed[g], d>>
Init == frozen = [g \in Gens |-> <<>>] /\ noise = 0 /\ hist = <<>>
Request(g, d) == /\ frozen' = [frozen EXCEPT ![g] = IF @ = <<>> THEN Key(g, d) ELSE @]
                 /\ hist' = Append(hist, <<"request", g, d>>) /\ UNCHANGED noise
Disturb == /\ noise' = noise + 1 /\ hist' = Append(hist, <<"noise">>) /\ UNCHANGED frozen
Next == Len(hist) < Depth /\ (Disturb \/ \E g \in Gens, d \in Datas : Request(g, d))
Spec == Init /\ [][Next]_vars

(* equal settings, seed and first data give equal bags, whatever happened in between; other seeds give others *)
FirstData(g) == LET s == SelectSeq(hist, LAMBDA h : h[1] = "request" /\ h[2] = g) IN IF s = <<>> THEN 0 ELSE s[1][3]
Reproducible == \A g, h \in Gens : frozen[g] # <<>> /\ frozen[h] # <<>> =>
                   (frozen[g] = frozen[h]) = (Setting[g] = Setting[h] /\ Seed[g] = Seed[h] /\ FirstData(g) = FirstData(h))
Frozen == [][\A g \in Gens : frozen[g] # <<>> => frozen'[g] = frozen[g]]_vars
Export == Len(hist) = Depth => EmitLine(ToJson([hist |-> hist]))
=============================================================================
