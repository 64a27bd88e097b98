----------------------------- MODULE MCDispatch -----------------------------
EXTENDS Dispatch, Json, TLC
CONSTANTS K
VARIABLES objs, log, h, n
vars == <<objs, log, h, n>>
Methods == {"f", "g"}
Init == objs \in [1..2 -> SUBSET Methods] /\ log = <<>> /\ h = <<>> /\ n = 0
Call(o, m, a) == /\ log' = log \o Reached(objs, o, m, <<n>>)
                 /\ h' = Append(h, [o |-> o, m |-> m, n |-> n, end |-> Ends(objs, o, m, a)])
                 /\ n' = n + 1 /\ objs' = objs
Next == n < K /\ \E o \in 1..2, m \in Methods, a \in {[t |-> "i"], [t |-> "raise"]} : Call(o, m, a)
Spec == Init /\ [][Next]_vars
\* every call that was not refused was seen once, by the object and function called, in order
Once == \A i \in 1..Len(h) : Cardinality({j \in 1..Len(log) : log[j].args = <<h[i].n>>}) = (IF h[i].end = "refused" THEN 0 ELSE 1)
Right == \A j \in 1..Len(log) : (\E i \in 1..Len(h) : h[i].o = log[j].o /\ h[i].m = log[j].m /\ log[j].args = <<h[i].n>>) = TRUE
Order == \A i, j \in 1..Len(log) : i < j => log[i].args[1] < log[j].args[1]
=============================================================================
