------------------------------- MODULE MCLife -------------------------------
EXTENDS Life, Json, TLC
CONSTANTS K
VARIABLES s, hist
vars == <<s, hist>>
Init == s = None /\ hist = <<>>
Do(op, t) == s' = t /\ hist' = Append(hist, op)
Next == /\ Len(hist) < K
        /\ \/ Do([op |-> "Init"], Init0(s))
           \/ Do([op |-> "Shutdown"], IF s.up THEN Shutdown0(s) ELSE s)
           \/ Do([op |-> "Reset"], Reset0(s))
           \/ \E n \in {"a", "b"} : Do([op |-> "Load", n |-> n], IF s.born THEN Load0(s, n) ELSE s)
           \/ \E x \in {"log", "par", "pro", "obj"} : Do([op |-> "SubInit", x |-> x, k |-> 3], SubInit(s, x, IF x = "par" THEN 3 ELSE 0)) \/ Do([op |-> "SubOff", x |-> x], SubOff(s, x))
Spec == Init /\ [][Next]_vars
\* init always leads to the same state; what is up has been started and not stopped since
Starts(i) == hist[i].op = "Init"
LastInit == IF \E i \in 1..Len(hist) : hist[i].op \in {"Init"} THEN CHOOSE i \in 1..Len(hist) : Starts(i) /\ \A j \in (i + 1)..Len(hist) : ~Starts(j) ELSE 0
Afresh == (LastInit > 0 /\ LastInit = Len(hist)) => s = Init0(None)
Sound == /\ (s.up => LastInit > 0 /\ \A j \in (LastInit + 1)..Len(hist) : hist[j].op # "Shutdown")
         /\ (s.names # {} => s.born)
Emit == Len(hist) < K \/ PrintT("@@" \o ToJson(hist))
=============================================================================
