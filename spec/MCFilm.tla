------------------------------- MODULE MCFilm -------------------------------
(* The compare-and-exchange loop of the bitmap film: each thread loads the pixel, computes the
   new value and exchanges it if the pixel is unchanged, otherwise retries.  TLC checks on every
   interleaving that the pixel always holds the result of the completed operations in some order
   (the order in which they took effect), and that all operations complete.                      *)
EXTENDS Film, Json
CONSTANTS T, Kinds
VARIABLES op, pc, px, exp, order, sched
vars == <<op, pc, px, exp, order, sched>>
Th == 1..T
Ops(t) == {[k |-> k, v |-> <<t, 10 * t, 100 * t>>, i |-> 0] : k \in Kinds}
Init == /\ op \in [Th -> UNION {Ops(t) : t \in Th}] /\ \A t \in Th : op[t] \in Ops(t)
        /\ pc = [t \in Th |-> "load"] /\ px = <<1, 1, 1>> /\ exp = [t \in Th |-> Black] /\ order = <<>> /\ sched = <<>>
Load(t) == /\ pc[t] = "load"
           /\ exp' = [exp EXCEPT ![t] = px] /\ pc' = [pc EXCEPT ![t] = "cas"]
           /\ sched' = Append(sched, [t |-> t, e |-> "l"])
           /\ UNCHANGED <<op, px, order>>
Cas(t) == /\ pc[t] = "cas"
          /\ IF px = exp[t] THEN px' = PixOp(op[t], exp[t]) /\ pc' = [pc EXCEPT ![t] = "done"] /\ order' = Append(order, t)
                                 /\ sched' = Append(sched, [t |-> t, e |-> "c"]) /\ UNCHANGED exp
             ELSE exp' = [exp EXCEPT ![t] = px] /\ UNCHANGED <<px, pc, order, sched>>
          /\ UNCHANGED op
Next == \E t \in Th : Load(t) \/ Cas(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
RECURSIVE Replay(_, _)
Replay(c, s) == IF s = <<>> THEN c ELSE Replay(PixOp(op[Head(s)], c), Tail(s))
Linearizable == px = Replay(<<1, 1, 1>>, order)
AllDone == \A t \in Th : pc[t] = "done"
Sound == AllDone => px \in Outcomes(<<1, 1, 1>>, [t \in Th |-> <<op[t]>>])
Completes == <>AllDone
Emit == ~AllDone \/ PrintT("@@" \o ToJson([ops |-> op, sched |-> sched]))
=============================================================================
