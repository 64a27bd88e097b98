------------------------------ MODULE Dispatch ------------------------------
(* Functions of components written in Python, called by the library.  An object has   *)
(* some of the functions of its interface.  A call reaches the function of that name   *)
(* of that object, once, with the arguments of the call, and ends as the function does: *)
(* with its answer or its exception.  A call of a function the object does not have     *)
(* is refused and reaches nothing.                                                       *)
EXTENDS Integers, Sequences, FiniteSets
Has(objs, o, m) == o \in DOMAIN objs /\ m \in objs[o]
\* what was reached during a call
Reached(objs, o, m, args) == IF Has(objs, o, m) THEN <<[o |-> o, m |-> m, args |-> args]>> ELSE <<>>
\* how the call ends, for a function that gives ans (an exception: [t |-> "raise"])
Ends(objs, o, m, ans) == IF ~Has(objs, o, m) THEN "refused" ELSE IF ans.t = "raise" THEN "raised" ELSE "answer"
=============================================================================
