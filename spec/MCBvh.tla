-------------------------------- MODULE MCBvh --------------------------------
(* Parallel construction of the bounding volume hierarchy: workers take ranges of triangles from a
   queue and turn them into leaves or split them anywhere.  Whatever the interleaving and the
   splits, all workers stop, and the tree's leaves hold every triangle exactly once.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NT, W
VARIABLES queue, nodes, nn, pr, done, pc, cur
vars == <<queue, nodes, nn, pr, done, pc, cur>>
Workers == 1..W
Init == /\ queue = << [i |-> 0, s |-> 0, e |-> NT] >> /\ nodes = <<>> /\ nn = 1 /\ pr = 0 /\ done = FALSE
        /\ pc = [w \in Workers |-> "loop"] /\ cur = [w \in Workers |-> [i |-> -1, s |-> 0, e |-> 0]]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
\* take an entry, wait for one, or leave
Take(w) == /\ pc[w] = "loop" /\ ~done /\ queue # <<>>
           /\ cur' = [cur EXCEPT ![w] = Head(queue)] /\ queue' = Tail(queue) /\ pc' = [pc EXCEPT ![w] = "work"]
           /\ UNCHANGED <<nodes, nn, pr, done>>
Leave(w) == pc[w] = "loop" /\ done /\ pc' = [pc EXCEPT ![w] = "end"] /\ UNCHANGED <<queue, nodes, nn, pr, done, cur>>
Leaf(w) == /\ pc[w] = "work"
           /\ nodes' = Put(nodes, cur[w].i, [leaf |-> TRUE, s |-> cur[w].s, e |-> cur[w].e, c |-> <<>>])
           /\ pr' = pr + cur[w].e - cur[w].s /\ pc' = [pc EXCEPT ![w] = "count"] /\ UNCHANGED <<queue, nn, done, cur>>
\* the counter is compared after it was increased, possibly seeing later increments
Count(w) == pc[w] = "count" /\ done' = (done \/ pr = NT) /\ pc' = [pc EXCEPT ![w] = "loop"] /\ UNCHANGED <<queue, nodes, nn, pr, cur>>
Split(w) == /\ pc[w] = "work" /\ cur[w].e - cur[w].s >= 2
            /\ \E m \in (cur[w].s + 1)..(cur[w].e - 1) :
                 /\ queue' = queue \o << [i |-> nn, s |-> cur[w].s, e |-> m], [i |-> nn + 1, s |-> m, e |-> cur[w].e] >>
                 /\ nodes' = Put(nodes, cur[w].i, [leaf |-> FALSE, s |-> 0, e |-> 0, c |-> <<nn, nn + 1>>])
            /\ nn' = nn + 2 /\ pc' = [pc EXCEPT ![w] = "loop"] /\ UNCHANGED <<pr, done, cur>>
Next == \E w \in Workers : Take(w) \/ Leave(w) \/ Leaf(w) \/ Count(w) \/ Split(w)
Spec == Init /\ [][Next]_vars /\ \A w \in Workers : WF_vars(Take(w) \/ Leave(w) \/ Leaf(w) \/ Count(w) \/ Split(w))
\* nodes never exceed what is allocated for them
Fits == nn <= (IF 2 * NT - 1 > 1 THEN 2 * NT - 1 ELSE 1)
RECURSIVE Leaves(_)
Leaves(i) == IF nodes[i].leaf THEN << <<nodes[i].s, nodes[i].e>> >> ELSE Leaves(nodes[i].c[1]) \o Leaves(nodes[i].c[2])
Ended == \A w \in Workers : pc[w] = "end"
Partition == Ended => LET L == Leaves(0) IN /\ L[1][1] = 0 /\ L[Len(L)][2] = NT
                                            /\ \A k \in 1..(Len(L) - 1) : L[k][2] = L[k + 1][1]
Completes == <>Ended
=============================================================================
