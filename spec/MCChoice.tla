------------------------------ MODULE MCChoice ------------------------------
(* A discrete distribution: weights are added one by one, the distribution is normalised, *)
(* numbers of an even grid are drawn.  Two stages: a row by its total, a column within it. *)
EXTENDS Sampling, TLC, Json
CONSTANTS MaxLen, MaxW, Rows
VARIABLES stage, w, k, drawn, count
vars == <<stage, w, k, drawn, count>>
Init == stage = "add" /\ w = <<>> /\ k = 0 /\ drawn = 0 /\ count = <<>>
Add == /\ stage = "add" /\ Len(w) < MaxLen
       /\ \E x \in 0..MaxW : w' = Append(w, x)
       /\ UNCHANGED <<stage, k, drawn, count>>
\* a distribution without weight cannot be drawn from
Norm == /\ stage = "add" /\ w # <<>> /\ Sum(w) > 0
        /\ stage' = "draw" /\ k' = 2 * Sum(w) /\ count' = [i \in 1..Len(w) |-> 0]
        /\ UNCHANGED <<w, drawn>>
Owners(j) == {i \in 1..Len(w) : /\ SumTo(w, i - 1) * 2 * k < (2 * j + 1) * Sum(w)
                                /\ (2 * j + 1) * Sum(w) < SumTo(w, i) * 2 * k}
Draw == /\ stage = "draw" /\ drawn < k
        /\ count' = [count EXCEPT ![Owner(w, k, drawn)] = @ + 1]
        /\ drawn' = drawn + 1 /\ UNCHANGED <<stage, w, k>>
Next == Add \/ Norm \/ Draw
Spec == Init /\ [][Next]_vars
UniqueOwner == stage = "draw" /\ drawn < k => Cardinality(Owners(drawn)) = 1
NeverWeightless == stage = "draw" => \A i \in 1..Len(w) : w[i] = 0 => count[i] = 0
Proportional == stage = "draw" /\ drawn = k => \A i \in 1..Len(w) : count[i] * Sum(w) = k * w[i]
\* choosing a row by its total and a column within the row is choosing by the weight itself
Cols == Len(w) \div Rows
Row(y) == [x \in 1..Cols |-> w[(y - 1) * Cols + x]]
Marginal == [y \in 1..Rows |-> Sum(Row(y))]
TwoStages == stage = "draw" /\ Len(w) % Rows = 0 =>
    \A y \in 1..Rows : \A x \in 1..Cols :
        \* marginal * conditional = joint, denominators cleared
        (Marginal[y] * Row(y)[x]) * Sum(w) = (w[(y - 1) * Cols + x] * Marginal[y]) * Sum(Marginal)
Emit == stage = "draw" /\ drawn = 0 => PrintT("@@" \o ToJson([w |-> w]))
=============================================================================
