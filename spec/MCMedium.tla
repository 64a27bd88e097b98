------------------------------ MODULE MCMedium ------------------------------
(* A flight through cells of different density, by delta tracking: in each cell a tentative *)
(* collision happens at the rate of the majorant D (of Q), and is real with probability *)
(* density / D.  Masses are integers: every step multiplies the denominator by Q * D. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Cells, D, Q, Mutant
VARIABLES den, at, alive, ended, den0
vars == <<den, at, alive, ended, den0>>
Init == den \in [1..Cells -> 0..D] /\ at = 0 /\ alive = 1 /\ ended = <<>> /\ den0 = 1
Real(i) == IF Mutant = "cell" THEN den[1] ELSE den[i]
Step == /\ at < Cells /\ at' = at + 1
        \* no tentative collision, or a null one
        /\ alive' = alive * ((Q - D) * D + D * (D - Real(at + 1)))
        /\ ended' = Append([i \in 1..Len(ended) |-> ended[i] * Q * D], alive * D * Real(at + 1))
        /\ den0' = den0 * Q * D /\ den' = den
Next == Step
Spec == Init /\ [][Next]_vars
RECURSIVE Prod(_, _)
Prod(a, b) == IF a > b THEN 1 ELSE (Q - den[a]) * D * Prod(a + 1, b)
RECURSIVE SumUp(_, _)
SumUp(s, n) == IF n = 0 THEN 0 ELSE s[n] + SumUp(s, n - 1)
\* survival is the product of the cells' transmittances: the majorant leaves no trace
Transmittance == alive = Prod(1, at)
\* nothing is lost: surviving and ended flights add up
Complete == alive + SumUp(ended, at) = den0
\* transmittances compose
Composes == \A m \in 0..at : Prod(1, at) = Prod(1, m) * Prod(m + 1, at)
\* a flight never ends where there is no medium
NoVacuum == \A i \in 1..at : den[i] = 0 => ended[i] = 0
=============================================================================
