------------------------------ MODULE ObjTrace ------------------------------
EXTENDS ObjFile, Json, IOUtils, SequencesExt, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES ti, l, s
tvars == <<ti, l, s>>
Ev == Traces[ti].ev[l]
Lib == Traces[ti].ev[1].lib
TInit == ti \in 1..Len(Traces) /\ l = 1 /\ TLCSet(ti, 0) /\ s = Start
Abs(x) == IF x < 0 THEN -x ELSE x
Open == Ev.op = "Open" /\ l = 1 /\ s' = s
Cmd == Ev.op = "Cmd" /\ s' = Do(s, Ev.cmd, Lib)
\* one triangle: positions, texture coordinates and normals of its vertices
TriOk(o, t) == \A v \in 1..3 : LET a == At(s, t[v]) IN
    /\ o[v].p = a.p
    /\ o[v].t = (IF a.t = <<>> THEN <<0, 0>> ELSE a.t)
    /\ o[v].n = (IF a.n = <<>> THEN <<0, 0, 0>> ELSE a.n)
TrisOk(os, fs) == Len(os) = Len(fs) /\ \A k \in 1..Len(fs) : TriOk(os[k], fs[k])
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Sub(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
\* the point with barycentric coordinates 1/4, 1/4, 1/2 of the vertices: sums with weights 1, 1, 2
Mix(a, b, c) == [i \in 1..Len(a) |-> a[i] + b[i] + 2 * c[i]]
Along(o, d) == LET x == Cross(o, d) IN Dot(o, d) > 0 /\ \A i \in 1..3 : Abs(x[i]) <= 2 * (Abs(d[1]) + Abs(d[2]) + Abs(d[3]))
PointOk(o, t) == LET a == At(s, t[1]) b == At(s, t[2]) c == At(s, t[3])
                     gn == Cross(Sub(b.p, a.p), Sub(c.p, a.p)) IN
    /\ o.p = Mix(a.p, b.p, c.p)
    /\ o.t = (IF a.t = <<>> THEN <<0, 0>> ELSE Mix(a.t, b.t, c.t))
    /\ gn # <<0, 0, 0>> => Along(o.gn, gn)
    /\ LET n == IF a.n = <<>> THEN gn ELSE Mix(a.n, b.n, c.n) IN n # <<0, 0, 0>> => Along(o.n, n)
\* the loader itself: materials and groups as handed to the callbacks
Load == /\ Ev.op = "Load" /\ s' = s /\ Ev.ret = Ok(s)
        /\ Ok(s) => /\ Ev.mats = Mats(s)
                    /\ Len(Ev.meshes) = Len(Filled(s))
                    /\ \A g \in 1..Len(Filled(s)) : TrisOk(Ev.meshes[g].tris, Filled(s)[g].fs) /\ Ev.meshes[g].m = Mats(s)[Filled(s)[g].m]
AllFaces == FlattenSeq([g \in 1..Len(s.prims) |-> s.prims[g].fs])
Mesh == /\ Ev.op = "Mesh" /\ s' = s /\ (Ev.out = "ok") = Ok(s)
        /\ Ok(s) => /\ TrisOk(Ev.tris, AllFaces) /\ Ev.num = Len(AllFaces)
                    /\ Len(Ev.points) = Len(AllFaces) /\ \A k \in 1..Len(AllFaces) : PointOk(Ev.points[k], AllFaces[k])
\* the model: primitives with materials and lights; textures are of one color each
KindOf(m) == IF Ev.base THEN "material::proxy" ELSE IF m.illum \in {5, 7} THEN IF Ev.skip THEN "material::diffuse" ELSE IF m.illum = 5 THEN "material::mirror" ELSE "material::glass" ELSE "material::mixture_wavefrontobj"
\* roughness r = 2 / (2 + Ns): quarters, and no anisotropy
MatOk(o, m) == /\ o.key = KindOf(m) /\ o.loc
               /\ o.key = "material::mixture_wavefrontobj" =>
                    /\ o.Kd = (IF m.map = "" THEN m.Kd ELSE Ev.colors[m.map])
                    /\ o.Ks = m.Ks
               /\ o.key = "material::diffuse" => o.Kd = <<0, 0, 0>>
Lit(m) == \E i \in 1..3 : m.Ke[i] > 0
Model == /\ Ev.op = "Model" /\ s' = s /\ (Ev.out = "ok") = Ok(s)
         /\ Ok(s) => /\ Len(Ev.prims) = Len(Filled(s))
                     /\ \A g \in 1..Len(Filled(s)) : LET f == Filled(s)[g] m == Mats(s)[f.m] o == Ev.prims[g] IN
                          /\ TrisOk(o.tris, f.fs) /\ MatOk(o.mat, m) /\ o.loc
                          /\ o.lit = Lit(m) /\ (Lit(m) => o.Ke = m.Ke)
                          /\ Len(o.points) = Len(f.fs) /\ \A k \in 1..Len(f.fs) : PointOk(o.points[k], f.fs[k])
\* ---- another loader (a plugin) may cut the file into other meshes: only the sequence of triangles, each with its ----
\* ---- material, is determined; what makes a file wrong is its own, but indices of nothing are refused          ----
Tiny == Traces[ti].ev[1].tiny
Cut(ms, n(_)) == FlattenSeq([g \in 1..Len(ms) |-> [k \in 1..n(ms[g]) |-> <<g, k>>]])
Given == Cut(Filled(s), LAMBDA g : Len(g.fs))
Same3(o, m) == o.name = m.name /\ (m.map = "" => o.Kd = m.Kd) /\ o.Ks = m.Ks /\ o.Ke = m.Ke /\ o.map = m.map
\* (relative indices of attributes before the first one may be read as missing)
Within == \A g \in 1..Len(s.prims) : \A k \in 1..Len(s.prims[g].fs) : \A v \in 1..3 : LET x == s.prims[g].fs[k][v] IN
            x[1] \in 1..Len(s.ps) /\ x[2] <= Len(s.ts) /\ x[3] <= Len(s.ns)
TLoad == /\ Ev.op = "Load" /\ s' = s
         /\ IF ~Ok(s) THEN (Within \/ ~Ev.ret) = TRUE
            ELSE /\ Ev.ret
                 /\ Len(Ev.mats) = Len(Mats(s)) /\ \A i \in 1..Len(Ev.mats) : Same3(Ev.mats[i], Mats(s)[i])
                 /\ LET c == Cut(Ev.meshes, LAMBDA g : Len(g.tris)) IN
                    /\ Len(c) = Len(Given)
                    /\ \A i \in 1..Len(c) : LET o == Ev.meshes[c[i][1]]  f == Filled(s)[Given[i][1]] IN
                          TriOk(o.tris[c[i][2]], f.fs[Given[i][2]]) /\ Same3(o.m, Mats(s)[f.m])
TMesh == /\ Ev.op = "Mesh" /\ IF Ok(s) THEN Mesh ELSE s' = s /\ (Within \/ Ev.out # "ok") = TRUE
TModel == /\ Ev.op = "Model" /\ s' = s
          /\ IF ~Ok(s) THEN (Within \/ Ev.out # "ok") = TRUE
             ELSE /\ Ev.out = "ok"
                  /\ LET c == Cut(Ev.prims, LAMBDA g : Len(g.tris)) IN
                     /\ Len(c) = Len(Given)
                     /\ \A i \in 1..Len(c) : LET o == Ev.prims[c[i][1]]  f == Filled(s)[Given[i][1]]  m == Mats(s)[f.m] IN
                          /\ TriOk(o.tris[c[i][2]], f.fs[Given[i][2]]) /\ MatOk(o.mat, m) /\ o.loc
                          /\ o.lit = Lit(m) /\ (Lit(m) => o.Ke = m.Ke) /\ PointOk(o.points[c[i][2]], f.fs[Given[i][2]])
TNext == /\ l <= Len(Traces[ti].ev) /\ l' = l + 1 /\ ti' = ti
         /\ \/ Open \/ Cmd \/ IF Tiny THEN TLoad \/ TMesh \/ TModel ELSE Load \/ Mesh \/ Model
TraceSpec == TInit /\ [][TNext]_tvars
TraceProgress == TLCSet(ti, IF TLCGet(ti) > l THEN TLCGet(ti) ELSE l)
Rejected == SelectSeq([k \in 1..Len(Traces) |-> <<k, TLCGet(k)>>], LAMBDA x : x[2] # Len(Traces[x[1]].ev) + 1)
TraceAccepted == /\ PrintT("@@REJ " \o ToJson(Rejected))
                 /\ PrintT("@@DONE " \o ToString(Len(Traces) - Len(Rejected)) \o " OF " \o ToString(Len(Traces)))
=============================================================================
