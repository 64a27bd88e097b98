----------------------------- MODULE MCPyWorld -----------------------------
EXTENDS PyWorld, Json, TLC
CONSTANTS K
VARIABLES s, h, seq, gone
vars == <<s, h, seq, gone>>
Keys == {"k1", "k2"}
Names == {"a", "b"}
Vars == {"x", "y"}
Init == s = DoReg(Start, "k1", 1) /\ h = <<[op |-> "Reg", k |-> "k1", c |-> 1]>> /\ seq = 0 /\ gone = {}
Do(e, t) == h' = Append(h, e) /\ s' = t /\ gone' = gone \cup (Live(s) \ Live(t))
Next == /\ Len(h) <= K
        /\ \/ \E k \in Keys, c \in 1..2 : Do([op |-> "Reg", k |-> k, c |-> c], DoReg(s, k, c)) /\ seq' = seq
           \/ \E k \in Keys : Do([op |-> "Unreg", k |-> k], DoUnreg(s, k)) /\ seq' = seq
           \/ \E n \in Names, k \in Keys, v \in {3, Poison} : Do([op |-> "Load", n |-> n, k |-> k, v |-> v, fail |-> FALSE], IF Can(s, k) THEN DoLoad(s, n, seq + 1, k, v) ELSE s) /\ seq' = seq + 1
           \/ \E n \in Names : Do([op |-> "Load", n |-> n, k |-> "k1", v |-> 5, fail |-> TRUE], s) /\ seq' = seq
           \/ \E x \in Vars : Do([op |-> "Create", x |-> x, k |-> "k1", v |-> 4, fail |-> FALSE], IF Can(s, "k1") THEN DoCreate(s, x, seq + 1, "k1", 4) ELSE s) /\ seq' = seq + 1
           \/ \E x \in Vars, n \in Names : Do([op |-> "Hold", x |-> x, n |-> n], DoHold(s, x, n)) /\ seq' = seq
           \/ \E x \in Vars : Do([op |-> "Drop", x |-> x], DoDrop(s, x)) /\ seq' = seq
           \/ Do([op |-> "Reset"], DoReset(s)) /\ seq' = seq
           \/ Do([op |-> "Save"], DoSave(s)) /\ seq' = seq
           \/ /\ Do([op |-> "LoadState"], IF Loadable(s) THEN DoLoadState(s, [n \in DOMAIN s.file.as |-> (seq + (IF n = "a" THEN 1 ELSE 2))]) ELSE s) /\ seq' = seq + 2
           \/ \E n \in Names : Do([op |-> "Material", n |-> n], DoMaterial(s, n)) /\ seq' = seq
Spec == Init /\ [][Next]_vars
\* nobody comes back, everything in the world is known, and the material's name is in the tree
OnceOnly == gone \cap Live(s) = {}
Sound == DOMAIN s.inst = Live(s) /\ (s.m \notin {"", "?"} => s.m \in DOMAIN s.tree)
\* saving and loading at once changes no value
Same == (\A n \in DOMAIN s.tree : Can(s, s.inst[s.tree[n]].key) /\ s.inst[s.tree[n]].val # Poison) =>
            LET z == DoSave(s)  at == [n \in DOMAIN z.file.as |-> seq + (IF n = "a" THEN 1 ELSE 2)]  t == DoLoadState(z, at) IN
            Loadable(z) /\ DOMAIN t.tree = DOMAIN s.tree /\ t.m = s.m /\ \A n \in DOMAIN s.tree : t.inst[t.tree[n]].val = s.inst[s.tree[n]].val
Emit == Len(h) = K + 1 => PrintT("@@" \o ToJson(h))
=============================================================================
