------------------------------ MODULE SceneTrace ------------------------------
EXTENDS SceneGraph, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES ti, l, sc, mesh, built
tvars == <<ti, l, sc, mesh, built>>
Ev == Traces[ti].ev[l]
Cfg == Traces[ti].cfg
LightEnv == Cfg.lights
Unbuilt == [ok |-> FALSE, clean |-> FALSE, T |-> <<>>, lights |-> <<>>]
TInit == ti \in 1..Len(Traces) /\ l = 1 /\ TLCSet(ti, 0) /\ sc = EmptyScene /\ mesh = <<>> /\ built = Unbuilt

NodeObs(n) == [type |-> n.type, children |-> n.children, inst |-> n.inst, mesh |-> n.mesh, material |-> n.material, light |-> n.light, camera |-> n.camera, medium |-> n.medium]
Observed(s, b) ==
    LET o == Ev.obs IN
    /\ o.n = Count(s) /\ Len(o.nodes) = Count(s)
    /\ \A k \in 1..Count(s) : NodeObs(s.nodes[k]) = o.nodes[k]
    /\ o.cam = s.cam /\ o.env = s.env /\ o.med = s.med
    /\ o.exact /\ SameBag(o.trav, Flatten(s))
    \* lights: as of the last build
    /\ Len(o.lights) = Len(b.lights) /\ SameBag(o.lights, b.lights)
    /\ \A k \in 1..Len(o.lidx) : o.lidx[k] \in 0..(Len(o.lights) - 1) /\ o.lights[o.lidx[k] + 1].i = o.lights[k].i
    /\ \A k \in 1..Count(s) : s.nodes[k].type = "prim" => (o.isl[k] = (s.nodes[k].light # "")) /\ (o.isc[k] = (s.cam = k - 1))
    /\ o.req = [prim |-> Count(s) > 1, camera |-> s.cam # None, light |-> b.lights # <<>>, accel |-> TRUE,
                all |-> Count(s) > 1 /\ s.cam # None /\ b.lights # <<>>]

Same == UNCHANGED <<mesh, built>>
MeshOp == /\ Ev.op = "Mesh" /\ mesh' = Put(mesh, Ev.name, Ev.tris) /\ built' = [built EXCEPT !.clean = FALSE] /\ sc' = sc
Step == \/ MeshOp
        \/ /\ Ev.op = "Prim"
           /\ IF ValidPrim(sc, Ev, LightEnv) THEN Ev.out = "ok" /\ Ev.ret = Count(sc) /\ sc' = AddPrim(sc, Ev, LightEnv) ELSE Ev.out = "lm:InvalidArgument" /\ sc' = sc
           /\ Same
        \/ /\ Ev.op \in {"Group", "Inst"} /\ Ev.out = "ok" /\ Ev.ret = Count(sc)
           /\ sc' = AddGroup(sc, IF Ev.op = "Group" THEN Ev.M ELSE Id34, Ev.op = "Inst") /\ Same
        \/ /\ Ev.op = "Child" /\ Ev.out = "ok" /\ sc' = Link(sc, Ev.p, Ev.c) /\ Same
        \/ /\ Ev.op = "Model" /\ Ev.out = "ok"
           /\ sc' = (IF Ev.p \in 0..(Count(sc) - 1) /\ Ev.loc # "" THEN AddModel(sc, Ev.p, Cfg.models[Ev.loc], 1) ELSE sc) /\ Same
        \/ /\ Ev.op = "FromModel" /\ Ev.out = "ok" /\ Ev.ret = (IF Ev.loc = "" THEN -1 ELSE Count(sc))
           /\ sc' = (IF Ev.loc = "" THEN sc ELSE CopyGraph(sc, Cfg.graphs[Ev.loc])) /\ Same
        \/ /\ Ev.op = "AddT"
           /\ LET g == AddGroup(sc, Ev.M, FALSE) IN
              IF Ev.loc # "" THEN Ev.out = "ok" /\ sc' = Link(AddModel(g, Count(sc), Cfg.models[Ev.loc], 1), 0, Count(sc))
              ELSE IF ValidPrim(sc, Ev, LightEnv) THEN Ev.out = "ok" /\ sc' = Link(Link(AddPrim(g, Ev, LightEnv), Count(sc), Count(sc) + 1), 0, Count(sc))
              ELSE Ev.out = "lm:InvalidArgument" /\ sc' \in {sc, g}
           /\ Same
        \/ /\ Ev.op = "Reset" /\ Ev.out = "ok" /\ sc' = EmptyScene /\ built' = Unbuilt /\ mesh' = mesh
        \/ /\ Ev.op = "Build" /\ Ev.out = "ok" /\ sc' = sc /\ mesh' = mesh
           /\ built' = [ok |-> TRUE, clean |-> TRUE, T |-> TLCEval(Tris(sc, mesh)), lights |-> Lights(sc)]
        \/ /\ Ev.op = "SaveLoad" /\ Ev.out = "ok" /\ UNCHANGED <<sc, mesh, built>>

\* ------------------------------------------------------------------ ray queries
SignedN(x) == LET L == x.tri.p  N0 == Cross(Sub3(L[2], L[1]), Sub3(L[3], L[1]))  C == Cof(x.M)  s == Sgn(DetM(x.M)) IN [i \in 1..3 |-> s * Dot(C[i], N0)]
Mix(m, a, b, c) == [i \in DOMAIN a |-> (m.det - m.u - m.v) * a[i] + m.u * b[i] + m.v * c[i]]
SignedV(x, w) == LET C == Cof(x.M)  s == Sgn(DetM(x.M)) IN [i \in 1..3 |-> s * Dot(C[i], w)]
AccelOk(q, nr) == LET a == q.a IN
    IF ~a.hit THEN ~nr.must
    ELSE ~a.bad /\ \E k \in nr.may : LET x == built.T[k]  m == nr.m[k] IN
            /\ x.i = a.i /\ x.face = a.face /\ x.M = a.M
            /\ Close(a.t, m.n, m.det) /\ Close(a.u, m.u, m.det) /\ Close(a.v, m.v, m.det)
SceneOk(q, nr) == LET s == q.s IN
    IF ~s.hit THEN ~nr.must /\ (q.t1 = "inf" => sc.env = None)
    ELSE IF s.inf THEN ~nr.must /\ q.t1 = "inf" /\ sc.env # None /\ s.i = sc.env /\ s.wo = [i \in 1..3 |-> -q.d[i]] /\ s.kind = "light"
    ELSE ~s.bad /\ s.kind = "surface" /\ ~s.deg /\ \E k \in nr.may : LET x == built.T[k]  m == nr.m[k]  n == x.tri.n  t == x.tri.t IN
            /\ x.i = s.i
            /\ CloseV(s.p, [i \in 1..3 |-> q.o[i] * m.det + m.n * q.d[i]], m.det)
            /\ Along(s.gn, SignedN(x))
            /\ Along(s.n, SignedV(x, Mix(m, n[1], n[2], n[3])))
            /\ CloseV(s.tex, Mix(m, t[1], t[2], t[3]), m.det)
Rays == /\ Ev.op = "Rays" /\ built.clean
        /\ (\A j \in 1..Len(Ev.q) : LET nr == TLCEval(Nearest(built.T, Ev.q[j])) IN AccelOk(Ev.q[j], nr) /\ SceneOk(Ev.q[j], nr)) = TRUE   \* (= TRUE: a value, not a choice of next states)
        /\ UNCHANGED <<sc, mesh, built>>

\* mutual visibility of two points: the answer is the same both ways and follows the triangles between them
VisOk(q) == LET r == [o |-> q.o, d |-> q.d]
                m == TLCEval([k \in DOMAIN built.T |-> Meet(built.T[k].P, r)])
                on(k) == m[k].det # 0 /\ m[k].u >= 0 /\ m[k].v >= 0 /\ m[k].u + m[k].v <= m[k].det
                inn(k) == m[k].det # 0 /\ m[k].u > 0 /\ m[k].v > 0 /\ m[k].u + m[k].v < m[k].det
                may == \E k \in DOMAIN built.T : on(k) /\ m[k].n > 0 /\ (q.far \/ m[k].n < m[k].det)
                must == \E k \in DOMAIN built.T : inn(k) /\ m[k].n * 100 >= m[k].det /\ (q.far \/ m[k].n * 100 <= 98 * m[k].det)
            IN /\ must => ~q.vis /\ ~q.rev
               /\ ~may => q.vis /\ q.rev
Vis == Ev.op = "Vis" /\ built.clean /\ ((\A j \in 1..Len(Ev.q) : VisOk(Ev.q[j])) = TRUE) /\ UNCHANGED <<sc, mesh, built>>

\* t-range of a ray in a box
BoxOk(q) == LET b == BoxRange(q.b, q) IN
    /\ q.hit => ~b.out \/ b.touch
    /\ ~q.hit => b.out \/ b.touch
    /\ q.hit /\ ~b.out => ~q.bad /\ Close(q.a, b.a.n, b.a.d) /\ Close(q.z, b.z.n, b.z.d)
Box == Ev.op = "Box" /\ ((\A j \in 1..Len(Ev.q) : BoxOk(Ev.q[j])) = TRUE) /\ UNCHANGED <<sc, mesh, built>>

\* a row of tiles of widely different sizes: a ray into the k-th tile hits the k-th tile
Tiles == /\ Ev.op = "Tiles" /\ Ev.out = "ok" /\ Len(Ev.hits) = Ev.n /\ (\A k \in 1..Ev.n : Ev.hits[k] = k - 1) /\ UNCHANGED <<sc, mesh, built>>

TNext == /\ l <= Len(Traces[ti].ev) /\ l' = l + 1 /\ ti' = ti
         /\ \/ Step /\ (Observed(sc', built') = TRUE)
            \/ Rays \/ Vis \/ Box \/ Tiles
TraceSpec == TInit /\ [][TNext]_tvars
TraceProgress == TLCSet(ti, IF TLCGet(ti) > l THEN TLCGet(ti) ELSE l)
Rejected == SelectSeq([k \in 1..Len(Traces) |-> <<k, TLCGet(k)>>], LAMBDA x : x[2] # Len(Traces[x[1]].ev) + 1)
TraceAccepted == /\ PrintT("@@REJ " \o ToJson(Rejected))
                 /\ PrintT("@@DONE " \o ToString(Len(Traces) - Len(Rejected)) \o " OF " \o ToString(Len(Traces)))
=============================================================================
