------------------------------ MODULE ObjFile ------------------------------
(* Wavefront OBJ and MTL files as sequences of commands, and what loading them means. *)
(* Coordinates are integers (quarters in the files). *)
EXTENDS Integers, Sequences, FiniteSets
NewMat(nm) == [name |-> nm, Kd |-> <<0, 0, 0>>, Ks |-> <<0, 0, 0>>, Ke |-> <<0, 0, 0>>, Ni |-> 0, Ns |-> 0, an |-> 0, illum |-> 0, map |-> ""]
DefaultMat == [NewMat("default") EXCEPT !.Kd = <<4, 4, 4>>, !.illum = -1]
Start == [ps |-> <<>>, ns |-> <<>>, ts |-> <<>>, mats |-> <<>>, cur |-> 1, prims |-> <<>>, err |-> FALSE]
(* ---- MTL ---- *)
RECURSIVE Mtl(_, _)
MtlOne(ms, c) ==
    IF c.c = "newmtl" THEN Append(ms, NewMat(c.name))
    ELSE IF ms = <<>> \/ c.c = "other" THEN ms
    ELSE [ms EXCEPT ![Len(ms)] = CASE c.c = "Kd" -> [@ EXCEPT !.Kd = c.x] [] c.c = "Ks" -> [@ EXCEPT !.Ks = c.x] [] c.c = "Ke" -> [@ EXCEPT !.Ke = c.x]
                                   [] c.c = "Ni" -> [@ EXCEPT !.Ni = c.x] [] c.c = "Ns" -> [@ EXCEPT !.Ns = c.x] [] c.c = "aniso" -> [@ EXCEPT !.an = c.x]
                                   [] c.c = "illum" -> [@ EXCEPT !.illum = c.x] [] c.c = "map_Kd" -> [@ EXCEPT !.map = c.name]]
Mtl(ms, cs) == IF cs = <<>> THEN ms ELSE Mtl(MtlOne(ms, Head(cs)), Tail(cs))
(* ---- OBJ ---- *)
\* the last material of that name, 0 if there is none
Find(ms, nm) == LET S == {i \in 1..Len(ms) : ms[i].name = nm} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : j <= i
\* an index: positive counts from the start, negative from what has been read so far, zero is none; -1 is invalid
Index(i, n) == IF i > 0 THEN i ELSE IF i = 0 THEN 0 ELSE IF n + 1 + i > 0 THEN n + 1 + i ELSE -1
Vertex(s, v) == <<Index(v[1], Len(s.ps)), Index(v[2], Len(s.ts)), Index(v[3], Len(s.ns))>>
\* a polygon is a fan of triangles
Fan(vs) == [k \in 1..Len(vs) - 2 |-> <<vs[1], vs[k + 1], vs[k + 2]>>]
OpenGroup(s) == IF s.prims = <<>> \/ s.prims[Len(s.prims)].fs # <<>> THEN [s EXCEPT !.prims = Append(@, [m |-> s.cur, fs |-> <<>>])] ELSE s
Group(s) == LET t == OpenGroup(s) IN [t EXCEPT !.prims[Len(t.prims)].m = t.cur]
Do(s, c, lib) ==
    IF s.err THEN s
    ELSE CASE c.c = "v" -> [s EXCEPT !.ps = Append(@, c.x)]
           [] c.c = "vn" -> [s EXCEPT !.ns = Append(@, c.x)]
           [] c.c = "vt" -> [s EXCEPT !.ts = Append(@, c.x)]
           [] c.c = "g" -> Group(s)
           [] c.c = "usemtl" -> LET i == Find(s.mats, c.name) IN
                                IF i = 0 THEN [s EXCEPT !.err = TRUE] ELSE Group([s EXCEPT !.cur = i])
           [] c.c = "mtllib" -> IF c.name \in DOMAIN lib THEN [s EXCEPT !.mats = Mtl(@, lib[c.name])] ELSE [s EXCEPT !.err = TRUE]
           [] c.c = "f" -> IF Len(c.vs) < 3 THEN [s EXCEPT !.err = TRUE]
                           ELSE LET t == IF s.prims = <<>> THEN OpenGroup([s EXCEPT !.cur = 1]) ELSE s
                                    vs == [k \in 1..Len(c.vs) |-> Vertex(s, c.vs[k])]
                                IN [t EXCEPT !.prims[Len(t.prims)].fs = @ \o Fan(vs), !.cur = s.cur]
           [] OTHER -> s
\* every vertex of a face names a position, and its attributes exist and are those of the face's other vertices
Sound(s) == \A g \in 1..Len(s.prims) : \A k \in 1..Len(s.prims[g].fs) : LET t == s.prims[g].fs[k] IN
    \A v \in 1..3 : /\ t[v][1] \in 1..Len(s.ps) /\ t[v][2] \in 0..Len(s.ts) /\ t[v][3] \in 0..Len(s.ns)
                    /\ (t[v][2] = 0) = (t[1][2] = 0) /\ (t[v][3] = 0) = (t[1][3] = 0)
Ok(s) == ~s.err /\ Sound(s)
Mats(s) == IF s.mats = <<>> THEN <<DefaultMat>> ELSE s.mats
\* what is handed out: the groups with faces, each with its material
Filled(s) == SelectSeq(s.prims, LAMBDA g : g.fs # <<>>)
At(s, v) == [p |-> s.ps[v[1]], t |-> IF v[2] = 0 THEN <<>> ELSE s.ts[v[2]], n |-> IF v[3] = 0 THEN <<>> ELSE s.ns[v[3]]]
=============================================================================
