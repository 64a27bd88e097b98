------------------------------- MODULE MCScene -------------------------------
(* Bounded histories of scene graph operations; sources of behaviours replayed into the code. *)
EXTENDS SceneGraph, Json
CONSTANTS Len0, MaxNodes
VARIABLES sc, hist
P(m, t, li, c, d) == [op |-> "Prim", mesh |-> m, material |-> t, light |-> li, camera |-> c, medium |-> d]
LightEnv == [pt |-> FALSE, env0 |-> TRUE]
T1 == << <<1, 0, 0, 2>>, <<0, 1, 0, 0>>, <<0, 0, 1, -1>> >>
R1 == << <<0, -1, 0, 0>>, <<1, 0, 0, 1>>, <<0, 0, 2, 0>> >>
Prims == {P("m0", "mat0", "", "", ""), P("", "", "pt", "", ""), P("", "", "env0", "", ""), P("", "", "", "cam0", ""), P("", "", "", "", "med"), P("m0", "", "", "", ""), P("", "", "pt", "cam0", "")}
Menu(s) == Prims \cup [op : {"Group"}, M : {T1, R1}] \cup {[op |-> "Inst"], [op |-> "Reset"], [op |-> "Build"]}
           \cup [op : {"Child"}, p : -1..Count(s), c : 0..Count(s)]
After(s, e) == CASE e.op = "Prim" -> IF ValidPrim(s, e, LightEnv) THEN AddPrim(s, e, LightEnv) ELSE s
                 [] e.op = "Group" -> AddGroup(s, e.M, FALSE)
                 [] e.op = "Inst" -> AddGroup(s, Id34, TRUE)
                 [] e.op = "Child" -> Link(s, e.p, e.c)
                 [] e.op = "Reset" -> EmptyScene
                 [] e.op = "Build" -> s
Init == sc = EmptyScene /\ hist = <<>>
Next == /\ Len(hist) < Len0
        /\ \E e \in Menu(sc) : /\ (e.op = "Reset" => Count(sc) > 1) /\ (Count(sc) >= MaxNodes => e.op \in {"Child", "Build", "Reset"})
                               /\ Acyclic(After(sc, e))
                               /\ sc' = After(sc, e) /\ hist' = Append(hist, e)
Spec == Init /\ [][Next]_<<sc, hist>>
\* The special nodes are what they are said to be, and a scene is the sum of the scenes of its parts
Special == /\ sc.cam # None => N(sc, sc.cam).camera # "" /\ \A i \in (sc.cam + 1)..(Count(sc) - 1) : N(sc, i).camera = ""
           /\ sc.env # None => N(sc, sc.env).light = "env0"
           /\ Cardinality({i \in 0..(Count(sc) - 1) : N(sc, i).light = "env0"}) <= 1
           /\ \A i \in 0..(Count(sc) - 1) : N(sc, i).type = "prim" => N(sc, i).children = <<>> /\ (N(sc, i).mesh = "") = (N(sc, i).material = "")
RECURSIVE Paths(_, _)
Paths(s, i) == IF N(s, i).type = "prim" THEN 1 ELSE LET c == N(s, i).children IN FoldLeft(LAMBDA a, x : a + Paths(s, x), 0, c)
PathCount == Len(Flatten(sc)) = Paths(sc, 0)
InScene == {Flatten(sc)[k].i : k \in DOMAIN Flatten(sc)} = {i \in Reach(sc, {0}, {}) : N(sc, i).type = "prim"}
Emit == Len(hist) = Len0 => PrintT("@@" \o ToJson(hist))
=============================================================================
