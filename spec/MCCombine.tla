------------------------------ MODULE MCCombine ------------------------------
(* Combination of the answers of up to Members members over K classes, in multiples of 1/D. *)
EXTENDS Ensemble, Json, Emit
CONSTANTS K, D, Members
VARIABLES ps
RECURSIVE Comps(_, _)
Comps(k, m) == IF k = 1 THEN {<<m>>} ELSE UNION {{<<x>> \o t : t \in Comps(k - 1, m - x)} : x \in 0..m}
Answers == {[c \in 1..K |-> RFrac(v[c], D)] : v \in Comps(K, D)}
Init == ps = <<>>
Next == Len(ps) < Members /\ \E a \in Answers : ps' = Append(ps, a)
Fractions == {"0", "1/4", "1/2", "3/4", "1"}
Distributions == ps # <<>> => \A f \in Fractions : \A s \in {"mean", "median", "prevalence_similarity"} :
                    Allowed(s, ps, f, <<>>) # {} /\ \A v \in Allowed(s, ps, f, <<>>) : IsDistribution(v, 0)
(* agreeing members are followed by every strategy; everything selected is the mean *)
Unanimous == ps # <<>> /\ (\A i \in 1..Len(ps) : ps[i] = ps[1]) =>
                \A f \in Fractions : \A s \in {"mean", "median", "prevalence_similarity"} : Allowed(s, ps, f, <<>>) = {ps[1]}
Everything == ps # <<>> => Allowed("prevalence_similarity", ps, "1", <<>>) = Allowed("mean", ps, "1", <<>>)
(* selected members are at least as close as the others *)
Closest == ps # <<>> => \A f \in Fractions : \A S \in Selections(FromMean(ps), f) :
                S # {} /\ \A i \in S, j \in (1..Len(ps)) \ S : RLe(FromMean(ps)[i], RAdd(FromMean(ps)[j], Eps))
Export == Len(ps) = Members => EmitLine(ToJson([ps |-> ps]))
=============================================================================
