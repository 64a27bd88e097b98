------------------------------ MODULE MCProps ------------------------------
(* All configurations of every component at a distance of at most D from its base. *)
EXTENDS Props, Json
CONSTANT D
VARIABLES k, g     \* g : name -> value (absent: "-")
vars == <<k, g>>
Fn(q) == [n \in Names(q) |-> Ent(q, n).base]
Dist == Cardinality({n \in Names(k) : g[n] # Ent(k, n).base})
Init == k \in DOMAIN Schema /\ g = Fn(k)
Next == /\ k' = k
        /\ Dist < D
        /\ \E n \in Names(k) : g[n] = Ent(k, n).base /\ \E v \in Ent(k, n).vals \ {g[n]} : g' = [g EXCEPT ![n] = v]
Spec == Init /\ [][Next]_vars
RECURSIVE Seqs(_, _)
Seqs(S, f) == IF S = {} THEN <<>> ELSE LET n == CHOOSE n \in S : TRUE IN (IF f[n] = "-" THEN <<>> ELSE <<[n |-> n, v |-> f[n]]>>) \o Seqs(S \ {n}, f)
G == Seqs(Names(k), g)
Reverse(s) == [j \in 1..Len(s) |-> s[Len(s) + 1 - j]]
\* The base of every component is accepted, and what a configuration means does not depend on how it is written
Sane == Accepted(k, Seqs(Names(k), Fn(k)))
OrderFree == Meaning(k, G) = Meaning(k, Reverse(G)) /\ Accepted(k, G) = Accepted(k, Reverse(G))
UnknownFree == Meaning(k, Append(G, [n |-> "zz", v |-> "x"])) = Meaning(k, G) /\ Accepted(k, Append(G, [n |-> "zz", v |-> "x"])) = Accepted(k, G)
DefaultFree == \A n \in Names(k) : (Ent(k, n).kind = "def" /\ g[n] = "d") => Meaning(k, Seqs(Names(k), [g EXCEPT ![n] = "-"])) = Meaning(k, G)
\* A single thing missing or malformed is noticed
Noticed == (Dist = 1 /\ \E n \in Names(k) : g[n] = "x" /\ n \notin Unread(k, Eff(k, G))) => ~Accepted(k, G)
Emit == PrintT("@@" \o ToJson([k |-> k, g |-> G, ok |-> Accepted(k, G), open |-> Open(k, G)]))
=============================================================================
