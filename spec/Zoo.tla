-------------------------------- MODULE Zoo --------------------------------
(* The built-in components as values.  What a component does is determined by the       *)
(* implementation, the properties it was constructed with, the operations applied to it *)
(* since, and, live, by the components it refers to: its Closure.  Saving and loading,  *)
(* replacing and reverting, relocating, and rebuilding from scratch are different ways   *)
(* to the same closure and must not be distinguishable.                                 *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

VARIABLES rec,    \* path -> [key, ifc, p, uses, cap, mods]
          files   \* file -> saved records (paths relative to the saved root)

\* Implementations whose construction reads from the components they refer to
Capturing == {"light::area", "volume::multi", "model::wavefrontobj"}

IsPrefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
InSub(root, q) == IsPrefix(root, q)
PathsUnder(r, root) == {q \in DOMAIN r : InSub(root, q)}

RECURSIVE Closure(_, _), Cat(_, _), ModsTxt(_, _)
Cat(r, ps) == IF ps = <<>> THEN "" ELSE Closure(r, Head(ps)) \o "," \o Cat(r, Tail(ps))
ModsTxt(r, ms) == IF ms = <<>> THEN "" ELSE Head(ms).t \o "<" \o Cat(r, Head(ms).u) \o ">" \o ModsTxt(r, Tail(ms))
Closure(r, p) == IF p \notin DOMAIN r THEN "null"
                 ELSE LET x == r[p] IN
                      x.key \o "{" \o x.p \o "}[" \o Cat(r, x.uses) \o "](" \o ModsTxt(r, x.mods) \o ")" \o x.cap

\* The geometry of a scene: what an acceleration structure captures when it is built
RECURSIVE GeoTxt(_, _)
GeoTxt(r, ms) == IF ms = <<>> THEN "" ELSE Head(ms).t \o "<" \o Cat(r, Head(ms).g) \o ">" \o GeoTxt(r, Tail(ms))

SetToRec(r, p, x) == [q \in DOMAIN r \cup {p} |-> IF q = p THEN x ELSE r[q]]
Mod(t, u, g) == [t |-> t, u |-> u, g |-> g]

\* Load: replaces whatever was there (and, with a group, everything under it)
Resolves(r, q, ifc) == q \in DOMAIN r /\ r[q].ifc = ifc
LoadOk(r, e) == /\ e.okp
                /\ e.g = <<>> \/ Resolves(r, e.g, "asset_group")
                /\ \A j \in 1..Len(e.req) : Resolves(r, e.req[j][1], e.req[j][2][1])
LoadRec(r, e) ==
    LET p == e.path
        keep == {q \in DOMAIN r : ~InSub(p, q)}
        r1 == [q \in keep |-> r[q]]
        cap == IF e.key \in Capturing THEN "#" \o Cat(r, e.uses) ELSE ""
    IN SetToRec(r1, p, [key |-> e.key, ifc |-> e.ifc, p |-> e.ptxt, uses |-> e.uses, cap |-> cap, mods |-> <<>>])

\* Scene and film operations
LightsOf(r, s) == UNION {{u \in {r[s].mods[j].u[k] : k \in 1..Len(r[s].mods[j].u)} : u \in DOMAIN r /\ r[u].ifc = "light"} : j \in 1..Len(r[s].mods)}
BuildRec(r, s, accels) ==
    LET geo == "geo:" \o GeoTxt(r, SelectSeq(r[s].mods, LAMBDA m : m.t # "built"))
        ls == LightsOf(r, s)
    IN [q \in DOMAIN r |->
          IF q \in accels THEN [r[q] EXCEPT !.mods = <<Mod(geo, <<>>, <<>>)>>]
          ELSE IF q \in ls THEN [r[q] EXCEPT !.mods = <<Mod("bound:" \o geo, <<>>, <<>>)>>]
          ELSE IF q = s THEN [r[q] EXCEPT !.mods = SelectSeq(@, LAMBDA m : m.t # "built") \o <<Mod("built", <<>>, <<>>)>>]
          ELSE r[q]]

\* The acceleration structure in use: the last one set, else the one given at construction
AccelOf(r, s) ==
    LET a == SelectSeq(r[s].mods, LAMBDA m : m.t = "accel")
    IN IF a # <<>> THEN {a[Len(a)].u[1]} ELSE {r[s].uses[j] : j \in 1..Len(r[s].uses)}

ModRec(r, e) ==
    CASE e.k = "build" -> BuildRec(r, e.p, AccelOf(r, e.p))
      [] e.k = "sreset" -> [r EXCEPT ![e.p].mods = SelectSeq(@, LAMBDA m : m.t = "accel")]
      [] e.k = "accel" -> [r EXCEPT ![e.p].mods = SelectSeq(@, LAMBDA m : m.t # "accel") \o <<Mod("accel", e.u, e.gu)>>]
      [] e.k = "aspect" -> [r EXCEPT ![e.p].mods = <<Mod(e.t, <<>>, <<>>)>>]
      [] e.k = "filmclear" -> [r EXCEPT ![e.p].mods = <<>>]
      [] OTHER -> [r EXCEPT ![e.p].mods = Append(@, Mod(e.t, e.u, e.gu))]

\* Rendering replaces the content of the film by a function of the renderer
RenderRec(r, e) ==
    LET r0 == [r EXCEPT ![e.film].mods = <<>>]
    IN [r EXCEPT ![e.film].mods = <<Mod("render:" \o Closure(r0, e.p), <<>>, <<>>)>>]

\* Saving a subtree: allowed iff everything it refers to lies within
RefsOf(x) == {x.uses[j] : j \in 1..Len(x.uses)} \cup UNION {{x.mods[j].u[k] : k \in 1..Len(x.mods[j].u)} : j \in 1..Len(x.mods)}
SelfContained(r, root) == \A q \in PathsUnder(r, root) : \A t \in RefsOf(r[q]) : InSub(root, t)
Rel(root, q) == SubSeq(q, Len(root) + 1, Len(q))
MapSeq(s, F(_)) == [j \in 1..Len(s) |-> F(s[j])]
Remap(x, F(_)) == [x EXCEPT !.uses = MapSeq(@, F), !.mods = [j \in 1..Len(@) |-> Mod(@[j].t, MapSeq(@[j].u, F), MapSeq(@[j].g, F))]]
Extract(r, root) == [s \in {Rel(root, q) : q \in PathsUnder(r, root)} |-> Remap(r[root \o s], LAMBDA q : Rel(root, q))]
Graft(r, at, sub) ==
    LET keep == {q \in DOMAIN r : ~InSub(at, q)}
        new == {at \o s : s \in DOMAIN sub}
    IN [q \in keep \cup new |-> IF q \in new THEN Remap(sub[Rel(at, q)], LAMBDA t : at \o t) ELSE r[q]]

EffectOn(r, fs, e) ==
    CASE e.op = "Load" -> IF LoadOk(r, e) THEN [out |-> "ok", rec |-> LoadRec(r, e), files |-> fs]
                          ELSE [out |-> "fail", rec |-> r, files |-> fs]
      [] e.op = "Mod" -> [out |-> "ok", rec |-> ModRec(r, e), files |-> fs]
      [] e.op = "Render" -> [out |-> "ok", rec |-> RenderRec(r, e), files |-> fs]
      [] e.op = "Save" -> IF e.p \in DOMAIN r /\ SelfContained(r, e.p)
                          THEN [out |-> "ok", rec |-> r, files |-> SetToRec(fs, e.f, Extract(r, e.p))]
                          ELSE [out |-> "fail", rec |-> r, files |-> fs]
      [] e.op = "LoadSer" -> IF Append(e.g, e.n) \notin DOMAIN r /\ e.f \in DOMAIN fs /\ (e.g = <<>> \/ Resolves(r, e.g, "asset_group"))
                             THEN [out |-> "ok", rec |-> Graft(r, Append(e.g, e.n), fs[e.f]), files |-> fs]
                             ELSE [out |-> "fail", rec |-> r, files |-> fs]
      [] e.op = "SaveState" -> [out |-> "ok", rec |-> r, files |-> SetToRec(fs, e.f, r)]
      [] e.op = "LoadState" -> [out |-> "ok", rec |-> fs[e.f], files |-> fs]
      [] e.op = "Reset" -> [out |-> "ok", rec |-> <<>>, files |-> fs]
      [] OTHER -> [out |-> "ok", rec |-> r, files |-> fs]
Effect(e) == EffectOn(rec, files, e)
=============================================================================
