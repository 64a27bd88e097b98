------------------------------- MODULE MCLoop -------------------------------
(* The algorithm of the parallel loop (workers drawing indices, a cancellation
   flag, per-thread counts added to a shared count, progress read by thread 0),
   step by step.  TLC checks on every interleaving that it refines Loop, and that
   the loop terminates; its schedules are replayed into the real loop.          *)
EXTENDS Loop, Json
CONSTANTS T, N, IVL, Throwers, PThrow, Keep
VARIABLES next, pc, cur, cnt, processed, flag, L, ret, hist
vars == <<next, pc, cur, cnt, processed, flag, L, ret, hist>>
Th == 0..T-1
H(x) == IF Keep THEN Append(hist, x) ELSE hist

Init == /\ next = 0 /\ pc = [k \in Th |-> "draw"] /\ cur = [k \in Th |-> -1] /\ cnt = [k \in Th |-> 0]
        /\ processed = 0 /\ flag = FALSE /\ L = NewLoop(N, T, IVL) /\ ret = "" /\ hist = <<>>

Draw(k) == /\ pc[k] = "draw"
           /\ IF next < N
              THEN /\ cur' = [cur EXCEPT ![k] = next] /\ next' = next + 1
                   /\ pc' = [pc EXCEPT ![k] = "check"]
              ELSE /\ pc' = [pc EXCEPT ![k] = "join"] /\ UNCHANGED <<cur, next>>
           /\ UNCHANGED <<cnt, processed, flag, L, ret, hist>>
Skip(k) == /\ pc[k] = "check" /\ flag
           /\ pc' = [pc EXCEPT ![k] = "draw"]
           /\ UNCHANGED <<next, cur, cnt, processed, flag, L, ret, hist>>
Begin(k) == /\ pc[k] = "check" /\ ~flag
            /\ L' = DoBegin(L, cur[k], k)
            /\ pc' = [pc EXCEPT ![k] = "proc"]
            /\ hist' = H([e |-> "b", i |-> cur[k]])
            /\ UNCHANGED <<next, cur, cnt, processed, flag, ret>>
End(k) == /\ pc[k] = "proc" /\ cur[k] \notin Throwers
          /\ L' = DoEnd(L, cur[k], k)
          /\ cnt' = [cnt EXCEPT ![k] = @ + 1]
          /\ pc' = [pc EXCEPT ![k] = "count"]
          /\ hist' = H([e |-> "e", i |-> cur[k]])
          /\ UNCHANGED <<next, cur, processed, flag, ret>>
Throw(k) == /\ pc[k] = "proc" /\ cur[k] \in Throwers
            /\ L' = DoThrow(L, cur[k], k, ToString(cur[k]))
            /\ pc' = [pc EXCEPT ![k] = "caught"]
            /\ hist' = H([e |-> "x", i |-> cur[k]])
            /\ UNCHANGED <<next, cur, cnt, processed, flag, ret>>
Count(k) == /\ pc[k] = "count"
            /\ IF cnt[k] >= IVL THEN processed' = processed + cnt[k] /\ cnt' = [cnt EXCEPT ![k] = 0]
                                ELSE UNCHANGED <<processed, cnt>>
            /\ pc' = [pc EXCEPT ![k] = IF k = 0 THEN "prog" ELSE "draw"]
            /\ UNCHANGED <<next, cur, flag, L, ret, hist>>
Prog(k) == /\ pc[k] = "prog"
           /\ L' = IF PThrow THEN DoProgressThrow(L, "p") ELSE DoProgress(L, processed)
           /\ pc' = [pc EXCEPT ![k] = IF PThrow THEN "caught" ELSE "draw"]
           /\ UNCHANGED <<next, cur, cnt, processed, flag, ret, hist>>
Caught(k) == /\ pc[k] = "caught" /\ flag' = TRUE
             /\ pc' = [pc EXCEPT ![k] = "draw"]
             /\ UNCHANGED <<next, cur, cnt, processed, L, ret, hist>>
Return == /\ ret = "" /\ \A k \in Th : pc[k] = "join"
          /\ \E x \in (IF flag THEN L.thrown ELSE {"ok"}) : ret' = x
          /\ UNCHANGED <<next, pc, cur, cnt, processed, flag, L, hist>>

Next == \/ \E k \in Th : Draw(k) \/ Skip(k) \/ Begin(k) \/ End(k) \/ Throw(k) \/ Count(k) \/ Prog(k) \/ Caught(k)
        \/ Return
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* Every step the caller can observe is one the specification of the loop allows
Refines == [][ \/ L' = L
               \/ \E k \in Th : \/ CanBegin(L, cur[k], k) /\ L' = DoBegin(L, cur[k], k)
                                \/ CanEnd(L, cur[k], k) /\ L' = DoEnd(L, cur[k], k)
                                \/ CanEnd(L, cur[k], k) /\ L' = DoThrow(L, cur[k], k, ToString(cur[k]))
                                \/ PThrow /\ L' = DoProgressThrow(L, "p")
                                \/ CanProgress(L, processed) /\ L' = DoProgress(L, processed) ]_vars
ReturnOk == ret # "" => CanReturn(L, ret)
Terminates == <>(ret # "")
ProgressSane == processed <= Cardinality(L.done)

SortedSeq(S) == LET F[s \in SUBSET S] == IF s = {} THEN <<>> ELSE LET m == CHOOSE x \in s : \A y \in s : x <= y IN <<m>> \o F[s \ {m}] IN F[S]
\* Schedules for replay: the order in which samples begin, end and throw
View == <<next, pc, cur, cnt, processed, flag, L, ret, hist>>
Emit == ret = "" \/ PrintT("@@" \o ToJson([n |-> N, t |-> T, ivl |-> IVL, throws |-> SortedSeq(Throwers), pthrow |-> PThrow, sched |-> hist]))
=============================================================================
