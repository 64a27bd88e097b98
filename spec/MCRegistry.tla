----------------------------- MODULE MCRegistry -----------------------------
EXTENDS Registry, Json
CONSTANT K
VARIABLES st, hist, n
vars == <<st, hist, n>>
Keys == {"vtr::k", "vtr::m"}
Als == {"", "vtr::a", "vtr::m"}     \* an alias may hide a key
Menu == [op : {"Reg"}, key : Keys, alias : Als] \cup [op : {"Unreg"}, key : Keys, alias : {"", "vtr::a"}]
        \cup [op : {"Create"}, name : {"vtr::k", "vtr::m", "vtr::a"}] \cup [op : {"Destroy"}, id : {"o"}]
        \cup [op : {"Load", "Unload"}, path : {"p1", "q1"}] \cup [op : {"UnloadAll"}, key : {""}]
FileOf == [p \in {"p1", "q1"} |-> "a"]
Complete(e) == CASE e.op = "Reg" -> [op |-> "Reg", key |-> e.key, alias |-> e.alias, v |-> n]
                 [] e.op = "Create" -> [op |-> "Create", name |-> e.name, id |-> ToString(n)]
                 [] e.op = "Destroy" -> [op |-> "Destroy", id |-> IF st.live = <<>> THEN "" ELSE CHOOSE x \in DOMAIN st.live : TRUE]
                 [] e.op = "Load" -> [op |-> "Load", path |-> e.path, file |-> FileOf[e.path]]
                 [] e.op = "Unload" -> [op |-> "Unload", path |-> e.path]
                 [] OTHER -> e
Init == st = Empty /\ hist = <<>> /\ n = 1
Next == /\ n <= K
        /\ \E m \in Menu : LET e == Complete(m) IN
            /\ m.op = "Destroy" => st.live # <<>>
            \* instances of a plugin's component must not outlive it
            /\ m.op \in {"Unload", "UnloadAll"} => \A x \in DOMAIN st.live : st.live[x].v # -1
            /\ st' = Effect(st, e).st /\ hist' = Append(hist, e) /\ n' = n + 1
Spec == Init /\ [][Next]_vars
Inv == Consistent(st)
\* an instance keeps its implementation, whatever happens to the registry
Stable == [][\A x \in DOMAIN st.live \cap DOMAIN st'.live : st.live[x] = st'.live[x]]_vars
Emit == n <= K \/ PrintT("@@" \o ToJson(hist))
=============================================================================
