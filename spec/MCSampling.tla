----------------------------- MODULE MCSampling -----------------------------
(* Why the contract matters: on every finite space of outcomes, a routine whose weights times *)
(* densities are the values and whose densities cover the values has the sum of the values as *)
(* its mean, also when chained (choose a component, then an outcome of it). *)
EXTENDS Sampling, TLC
CONSTANTS Outcomes, Parts, Mutant
VARIABLES stage, pc, p, f, mean
vars == <<stage, pc, p, f, mean>>
\* probabilities are multiples of 1/Parts, values are multiples of 12 (so that weights are integral over the parts)
Probs(S) == {x \in [S -> 0..Parts] : \E t \in {0} : SumTo([i \in 1..Cardinality(S) |-> x[i]], Cardinality(S)) = Parts}
Comps == 1..2
Init == stage = "choose" /\ pc = <<>> /\ p = <<>> /\ f = <<>> /\ mean = 0
Setup == /\ stage = "choose" /\ stage' = "set"
         /\ pc' \in Probs(Comps)
         /\ p' \in [Comps -> Probs(1..Outcomes)]
         /\ f' \in [Comps -> [1..Outcomes -> {0, 1, 2}]]
         /\ mean' = 0
\* the density covers the value (unless the mutant forgets it)
Covered == \A k \in Comps : (\E o \in 1..Outcomes : f[k][o] > 0) => /\ pc[k] > 0
                               /\ \A o \in 1..Outcomes : f[k][o] > 0 => p[k][o] > 0
\* mean of weight: sum over what can be drawn of probability times (value over probability)
Draw == /\ stage = "set" /\ stage' = "done"
        /\ mean' = LET term(k, o) == IF pc[k] > 0 /\ p[k][o] > 0
                                     THEN IF Mutant = "selection" THEN f[k][o] * pc[k] ELSE f[k][o] * Parts
                                     ELSE 0
                   IN Sum([k \in Comps |-> Sum([o \in 1..Outcomes |-> term(k, o)])])
        /\ UNCHANGED <<pc, p, f>>
Next == Setup \/ Draw
Spec == Init /\ [][Next]_vars
Total == Sum([k \in Comps |-> Sum([o \in 1..Outcomes |-> f[k][o]])])
UnbiasedMean == stage = "done" /\ (Covered \/ Mutant = "support") => mean = Parts * Total
=============================================================================
