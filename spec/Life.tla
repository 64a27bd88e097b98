-------------------------------- MODULE Life --------------------------------
(* The life of the framework: services exist between init and shutdown, every init starts afresh. *)
EXTENDS Integers, Sequences, FiniteSets
Un == "lm:Uninitialized"
None == [up |-> FALSE, born |-> FALSE, names |-> {}, threads |-> 0, sub |-> [log |-> FALSE, par |-> FALSE, pro |-> FALSE, obj |-> FALSE]]
All(b) == [log |-> b, par |-> b, pro |-> b, obj |-> b]
\* threads: 0 - the default
Init0(s) == [up |-> TRUE, born |-> TRUE, names |-> {}, threads |-> 0, sub |-> All(TRUE)]
Shutdown0(s) == [s EXCEPT !.up = FALSE, !.sub = All(FALSE), !.threads = 0]
Reset0(s) == [s EXCEPT !.born = TRUE, !.names = {}]
Load0(s, n) == [s EXCEPT !.names = @ \cup {n}]
SubInit(s, x, k) == [s EXCEPT !.sub = [@ EXCEPT ![x] = TRUE], !.threads = IF x = "par" THEN k ELSE @]
SubOff(s, x) == [s EXCEPT !.sub = [@ EXCEPT ![x] = FALSE]]
\* results
RShutdown(s) == IF s.up THEN "ok" ELSE Un
RTree(s) == IF s.born THEN "ok" ELSE Un
RSub(s, x) == IF s.sub[x] THEN "ok" ELSE Un
=============================================================================
