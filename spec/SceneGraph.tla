----------------------------- MODULE SceneGraph -----------------------------
(* Scene graph: nodes are groups (with an optional transform) and primitives (associations of
   assets).  Node 0 is the root.  What is in the scene is what can be reached from the root, as
   often as there are paths, under the transforms along the path.
   assets: [mesh |-> name -> seq of triangles, light |-> name -> [env |-> BOOLEAN], ...]       *)
EXTENDS Geometry, SequencesExt

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
None == -1
Group(M, inst) == [type |-> "group", children |-> <<>>, inst |-> inst, M |-> M, mesh |-> "", material |-> "", light |-> "", camera |-> "", medium |-> ""]
Prim(e) == [type |-> "prim", children |-> <<>>, inst |-> FALSE, M |-> Id34, mesh |-> e.mesh, material |-> e.material, light |-> e.light, camera |-> e.camera, medium |-> e.medium]
EmptyScene == [nodes |-> <<Group(Id34, FALSE)>>, cam |-> None, env |-> None, med |-> None]
N(sc, i) == sc.nodes[i + 1]
Count(sc) == Len(sc.nodes)

\* ------------------------------------------------------------------ operations
ValidPrim(sc, e, lights) ==
    /\ e.mesh # "" \/ e.material # "" \/ e.light # "" \/ e.camera # "" \/ e.medium # ""
    /\ ~(e.camera # "" /\ e.light # "")
    /\ (e.mesh # "") = (e.material # "")
    /\ e.light # "" /\ lights[e.light] => sc.env = None        \* one environment light per scene
AddPrim(sc, e, lights) == [sc EXCEPT !.nodes = Append(@, Prim(e)),
                                     !.cam = IF e.camera # "" THEN Count(sc) ELSE @,
                                     !.env = IF e.light # "" /\ lights[e.light] THEN Count(sc) ELSE @,
                                     !.med = IF e.medium # "" THEN Count(sc) ELSE @]
AddGroup(sc, M, inst) == [sc EXCEPT !.nodes = Append(@, Group(M, inst))]
Linkable(sc, p, c) == p \in 0..(Count(sc) - 1) /\ c \in 0..(Count(sc) - 1) /\ N(sc, p).type = "group"
Link(sc, p, c) == IF Linkable(sc, p, c) THEN [sc EXCEPT !.nodes[p + 1].children = Append(@, c)] ELSE sc
RECURSIVE AddModel(_, _, _, _)
\* parts of a model: sequence of primitives, appended and linked one by one
AddModel(sc, p, parts, k) == IF k > Len(parts) THEN sc
    ELSE AddModel(Link([sc EXCEPT !.nodes = Append(@, Prim(parts[k]))], p, Count(sc)), p, parts, k + 1)
\* a model with a graph of its own: its nodes are appended, references among them shifted
CopyGraph(sc, ns) ==
    LET o == Count(sc)
        cams == {k \in 1..Len(ns) : ns[k].camera # ""} IN
    [sc EXCEPT !.nodes = @ \o [k \in 1..Len(ns) |-> [ns[k] EXCEPT !.children = [j \in DOMAIN @ |-> @[j] + o]]],
               !.cam = IF cams = {} THEN @ ELSE o - 1 + (CHOOSE k \in cams : \A x \in cams : x <= k)]

\* ------------------------------------------------------------------ flattening
\* All paths from the root to primitives: sequence of [i |-> node, M |-> transform]
RECURSIVE Flat(_, _, _)
Flat(sc, i, M) == LET n == N(sc, i) IN
    IF n.type = "prim" THEN << [i |-> i, M |-> M] >>
    ELSE LET M2 == Compose(M, n.M) IN FlattenSeq([k \in DOMAIN n.children |-> Flat(sc, n.children[k], M2)])
Flatten(sc) == Flat(sc, 0, Id34)
RECURSIVE Reach(_, _, _)
Reach(sc, todo, seen) == IF todo = {} THEN seen
    ELSE LET nx == UNION {{N(sc, x).children[j] : j \in DOMAIN N(sc, x).children} : x \in todo} \ (seen \cup todo) IN Reach(sc, nx, seen \cup todo)
\* no node is its own descendant
Acyclic(sc) == \A i \in 0..(Count(sc) - 1) : LET ch == {N(sc, i).children[j] : j \in DOMAIN N(sc, i).children} IN i \notin Reach(sc, ch, {})
Lights(sc) == SelectSeq(Flatten(sc), LAMBDA x : N(sc, x.i).light # "")
SameBag(s, t) == Len(s) = Len(t) /\ \A k \in 1..Len(s) : Cardinality({j \in 1..Len(s) : s[j] = s[k]}) = Cardinality({j \in 1..Len(t) : t[j] = s[k]})

\* Triangles of the scene under the meshes given: sequence of [i, M, face, P, tri]
Tris(sc, mesh) == LET F == SelectSeq(Flatten(sc), LAMBDA x : N(sc, x.i).mesh # "") IN
    FlattenSeq([k \in DOMAIN F |-> LET ts == mesh[N(sc, F[k].i).mesh] IN
       [j \in DOMAIN ts |-> [i |-> F[k].i, M |-> F[k].M, face |-> j - 1, P |-> [v \in 1..3 |-> Map(F[k].M, ts[j].p[v])], tri |-> ts[j]]]])

\* -------------------------------------------------------------------- queries
\* the triangles the nearest hit may be on
Nearest(T, r) ==
    LET m == TLCEval([k \in DOMAIN T |-> Meet(T[k].P, r)])
        must == TLCEval({k \in DOMAIN T : Must(m[k], r)})
        best == IF must = {} THEN [det |-> 0, n |-> 0, u |-> 0, v |-> 0] ELSE m[CHOOSE k \in must : \A j \in must : ~Nearer(m[j], m[k])]
    IN TLCEval([must |-> must # {}, m |-> m, may |-> {k \in DOMAIN T : May(m[k], r) /\ (must # {} => ~Nearer(best, m[k]))}])
=============================================================================
