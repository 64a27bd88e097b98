---------------------------- MODULE MCAssetTree ----------------------------
(* Bounded model of AssetTree: every history of operations drawn from Ops. *)
EXTENDS AssetTree, Json

CONSTANTS K,        \* length of the histories
          Menu      \* which operations are offered
VARIABLES hist, nxt

mcvars == <<tree, files, used, hist, nxt>>

R(ty, to, strict) == [ty |-> ty, to |-> to, strict |-> strict]
L(g, n, k, refs, kids, fail) == [op |-> "Load", g |-> g, n |-> n, k |-> k, tag |-> 1, fail |-> fail, fail_load |-> 0, refs |-> refs, kids |-> kids]
Kid(n, k, refs) == [n |-> n, k |-> k, tag |-> 2, fail |-> "no", fail_load |-> 0, refs |-> refs, kids |-> <<>>]
LF(g, n, k, refs) == [L(g, n, k, refs, <<>>, "no") EXCEPT !.fail_load = 1]

Root == <<>>
a == <<"a">>   ab == <<"ab">>   g == <<"g">>   ga == <<"g", "a">>

\* Replacement and references
OpsRef == {
    L(Root, "a", "A", <<>>, <<>>, "no"),
    L(Root, "a", "B", <<>>, <<>>, "no"),
    L(Root, "a", "A", <<>>, <<Kid("x", "A", <<>>)>>, "no"),
    L(Root, "a", "A", <<R("C", <<"a", "x">>, FALSE)>>, <<Kid("x", "B", <<R("A", a, TRUE)>>)>>, "no"),
    L(Root, "b", "A", <<R("A", a, FALSE)>>, <<>>, "no"),
    L(Root, "b", "B", <<R("C", a, TRUE), R("C", <<"a", "x">>, FALSE)>>, <<>>, "no"),
    L(Root, "b", "A", <<R("C", ga, FALSE), R("C", g, FALSE)>>, <<>>, "no"),
    L(Root, "g", "G", <<>>, <<>>, "no"),
    L(g, "a", "A", <<R("C", a, FALSE), R("C", ga, FALSE)>>, <<>>, "no"),
    L(g, "b", "B", <<R("A", ga, TRUE)>>, <<>>, "no"),
    L(g, "a", "B", <<R("C", g, TRUE)>>, <<Kid("x", "A", <<R("C", a, FALSE)>>)>>, "no"),
    [op |-> "Reset"] }

\* Failures
OpsFail == {
    L(Root, "a", "A", <<>>, <<>>, "no"),
    L(Root, "a", "A", <<R("C", <<"b">>, TRUE)>>, <<>>, "no"),
    L(Root, "a", "A", <<>>, <<Kid("x", "A", <<>>)>>, "late"),
    L(Root, "a", "B", <<>>, <<>>, "early"),
    L(Root, "a", "A", <<>>, <<>>, "int"),
    L(Root, "a", "A", <<>>, <<Kid("x", "B", <<R("C", <<"zz">>, TRUE)>>)>>, "no"),
    L(Root, "a", "U", <<>>, <<>>, "no"),
    L(Root, "a.b", "A", <<>>, <<>>, "no"),
    L(Root, "", "A", <<>>, <<>>, "no"),
    L(Root, "b", "A", <<R("A", a, FALSE)>>, <<>>, "no"),
    L(Root, "b", "A", <<R("A", a, TRUE)>>, <<Kid("x", "A", <<R("C", a, FALSE)>>)>>, "lm"),
    L(Root, "g", "G", <<>>, <<>>, "no"),
    L(g, "a", "A", <<R("C", a, FALSE)>>, <<>>, "late"),
    L(g, "a", "A", <<R("C", a, FALSE)>>, <<>>, "no"),
    L(ab, "a", "A", <<>>, <<>>, "no"),
    [op |-> "LoadState", f |-> "none"],
    [op |-> "LoadSer", g |-> Root, n |-> "a", f |-> "none"],
    [op |-> "LoadSer", g |-> Root, n |-> "b", f |-> "none"] }

\* Persistence
OpsSer == {
    L(Root, "a", "A", <<>>, <<>>, "no"),
    L(Root, "ab", "A", <<>>, <<>>, "no"),
    L(Root, "a", "A", <<R("C", ab, FALSE)>>, <<>>, "no"),
    L(Root, "a", "A", <<R("C", a, TRUE), R("C", <<"a", "x">>, FALSE)>>, <<Kid("x", "B", <<R("A", a, FALSE)>>)>>, "no"),
    L(Root, "g", "G", <<>>, <<>>, "no"),
    L(g, "a", "A", <<R("C", a, FALSE)>>, <<>>, "no"),
    L(g, "b", "B", <<R("A", ga, FALSE)>>, <<>>, "no"),
    LF(Root, "b", "B", <<>>),
    [op |-> "Save", p |-> a, f |-> "f1"],
    [op |-> "Save", p |-> g, f |-> "f1"],
    [op |-> "Save", p |-> <<"b">>, f |-> "f2"],
    [op |-> "LoadSer", g |-> Root, n |-> "c", f |-> "f1"],
    [op |-> "LoadSer", g |-> Root, n |-> "a", f |-> "f1"],
    [op |-> "LoadSer", g |-> g, n |-> "c", f |-> "f1"],
    [op |-> "LoadSer", g |-> Root, n |-> "c", f |-> "f2"],
    [op |-> "LoadSer", g |-> Root, n |-> "c.d", f |-> "f1"],
    [op |-> "SaveState", f |-> "f2"],
    [op |-> "LoadState", f |-> "f2"],
    [op |-> "LoadState", f |-> "f1"],
    [op |-> "Truncate", f |-> "f1", num |-> 1, den |-> 2],
    [op |-> "Truncate", f |-> "f2", num |-> 1, den |-> 1],
    [op |-> "Reset"] }

Ops == CASE Menu = "ref" -> OpsRef [] Menu = "fail" -> OpsFail [] Menu = "ser" -> OpsSer
         [] OTHER -> OpsRef \cup OpsFail \cup OpsSer

\* Instance ids: the n-th operation creates n*10, n*10+1, ...
FreshPaths(op) == PathsOf(op)
RECURSIVE Number(_, _)
Number(S, n) == IF S = {} THEN <<>> ELSE LET p == CHOOSE p \in S : TRUE IN (p :> n) @@ Number(S \ {p}, n + 1)

Init == tree = RootOnly(1) /\ files = <<>> /\ used = {1} /\ hist = <<>> /\ nxt = 2

Do(op) == /\ Len(hist) < K
          /\ LET id == Number(FreshPaths(op), nxt)  x == Effect(op, id) IN
             /\ tree' = x.tree /\ files' = x.files
             /\ used' = used \cup Ids(x.tree)
             /\ nxt' = nxt + Cardinality(FreshPaths(op))
          /\ hist' = Append(hist, op)
Next == \E op \in Ops : Do(op)
Spec == Init /\ [][Next]_mcvars

\* A failed operation changes nothing but, possibly, the file it was writing.
Atomic == [][\A op \in Ops : (hist' = Append(hist, op) /\ Effect(op, Number(FreshPaths(op), nxt)).out \cap {"throw", "null", "nogroup"} # {})
                => tree' = tree]_mcvars
\* Instance ids are never reused: identity of components is meaningful.
Fresh == [][Ids(tree') \cap used \subseteq Ids(tree)]_mcvars

Emit == Len(hist) = K => PrintT("@@" \o ToJson(hist))
View == <<tree, files, Len(hist)>>
=============================================================================
