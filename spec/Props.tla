------------------------------- MODULE Props -------------------------------
(* Properties of the built-in components.  A component is configured by a list of named  *)
(* values.  Its schema says which names it knows, which are required, which have a        *)
(* default.  Construction succeeds iff everything required is there and everything given  *)
(* is well formed; what is constructed is a function of the effective values alone:       *)
(* defaults may be written out, names unknown to the schema and the order do not matter,   *)
(* and every known property does.                                                          *)
(* Values are abstract: "a" and "b" are two different well-formed values, "d" is the       *)
(* default written out, "x" is malformed, "-" stands for absent.                           *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

P(n, kind, base, vals) == [n |-> n, kind |-> kind, base |-> base, vals |-> vals]
Req(n) == P(n, "req", "a", {"a", "b", "x", "-"})           \* required
Opt(n) == P(n, "def", "a", {"a", "b", "d", "x", "-"})      \* has a default
Flag(n) == P(n, "def", "d", {"b", "d", "x", "-"})          \* has two values
Non(n) == P(n, "none", "a", {"a", "b", "x", "-"})          \* absent is a value of its own
Alt(n) == P(n, "none", "-", {"a", "b", "x", "-"})          \* absent unless said otherwise
Ref(n) == P(n, "none", "a", {"a", "b", "-"})               \* an optional reference
Fix(n) == P(n, "req", "a", {"a", "x", "-"})                \* required, one value here
Sched == <<Fix("scene"), Fix("output"), Fix("scheduler"), Req("max_verts"), P("seed", "none", "a", {"a", "b", "x"})>>
Spi == Sched \o <<Req("num_samples")>>

Schema ==
  [k \in {"material::diffuse", "material::glossy", "material::glass", "material::proxy",
          "texture::constant", "texture::bitmap", "light::point", "light::directional", "light::envconst", "light::env", "light::area",
          "camera::pinhole", "phase::hg", "volume::constant", "volume::sphere", "volume::gaussian", "volume::checker",
          "medium::homogeneous", "medium::heterogeneous", "film::bitmap", "mesh::raw", "mesh::wavefrontobj",
          "scheduler::spp::sample", "scheduler::spi::sample", "scheduler::spp::time", "scheduler::spi::time", "progress::delay",
          "renderer::blank", "renderer::raycast", "renderer::pt", "renderer::lt", "renderer::bdpt", "renderer::bdptopt",
          "renderer::pt_naive_path", "renderer::pt_nee_path", "renderer::lt_nee_path", "renderer::volpt", "renderer::volpt_naive"} |->
    CASE k = "material::diffuse" -> <<Opt("Kd"), P("mapKd", "none", "-", {"a", "b", "-"})>>
      [] k = "material::glossy" -> <<Req("Ks"), Req("ax"), Req("ay")>>
      [] k = "material::glass" -> <<Req("Ni")>>
      [] k = "material::proxy" -> <<Req("ref")>>
      [] k = "texture::constant" -> <<Req("color"), Non("alpha")>>
      [] k = "texture::bitmap" -> <<Req("path"), Flag("flip")>>
      [] k = "light::point" -> <<Req("Le"), Req("position")>>
      [] k = "light::directional" -> <<Req("Le"), Req("direction")>>
      [] k = "light::envconst" -> <<Req("Le")>>
      [] k = "light::env" -> <<Req("path"), Opt("rot"), Opt("scale"), Flag("flip")>>
      [] k = "light::area" -> <<Req("Ke"), Req("mesh")>>
      [] k = "camera::pinhole" -> <<Req("position"), Req("center"), Req("up"), Alt("matrix"), Req("vfov"), Req("aspect")>>
      [] k = "phase::hg" -> <<Req("g")>>
      [] k = "volume::constant" -> <<Non("color"), Non("scalar"), Opt("bound_min"), Opt("bound_max")>>
      [] k = "volume::sphere" -> <<Non("color"), Non("scalar"), Opt("pos"), Opt("radius")>>
      [] k = "volume::gaussian" -> <<Non("color"), Non("scalar"), Opt("pos"), Opt("sigma")>>
      [] k = "volume::checker" -> <<Req("bound_min"), Req("bound_max")>>
      [] k = "medium::homogeneous" -> <<Req("density"), Req("albedo"), Req("phase"), Opt("bound_min"), Opt("bound_max")>>
      [] k = "medium::heterogeneous" -> <<Req("volume_density"), Req("volume_albedo"), Req("phase")>>
      [] k = "film::bitmap" -> <<Req("w"), Req("h"), Opt("quality")>>
      [] k = "mesh::raw" -> <<Req("ps"), Req("ns"), Req("ts"), Req("fs")>>
      [] k = "mesh::wavefrontobj" -> <<Req("path")>>
      [] k = "scheduler::spp::sample" -> <<Req("spp"), Req("output")>>
      [] k = "scheduler::spi::sample" -> <<Req("num_samples")>>
      [] k = "scheduler::spp::time" -> <<Fix("render_time"), Fix("output")>>
      [] k = "scheduler::spi::time" -> <<Fix("render_time"), P("samples_per_iter", "def", "d", {"d", "x", "-"})>>
      [] k = "progress::delay" -> <<Fix("delay"), Fix("progress")>>
      [] k = "renderer::blank" -> <<Req("color"), Fix("output")>>
      [] k = "renderer::raycast" -> <<Fix("scene"), Fix("output"), Opt("bg_color"), Flag("use_constant_color"), Flag("visualize_normal"), Alt("color")>>
      [] k = "renderer::pt" -> Sched \o <<P("spp", "none", "a", {"a", "b", "x", "-"}), P("num_samples", "none", "a", {"a", "b", "x", "-"}), Opt("sampling_mode"), P("primary_ray_sampling_mode", "def", "d", {"a", "d", "x", "-"})>>
      [] k \in {"renderer::bdpt", "renderer::bdptopt"} -> Spi \o <<Opt("min_verts")>>
      [] k \in {"renderer::volpt", "renderer::volpt_naive"} -> Sched \o <<Req("spp"), Opt("rr_prob")>>
      [] OTHER -> Spi]

Ents(k) == {Schema[k][j] : j \in 1..Len(Schema[k])}
Ent(k, n) == CHOOSE e \in Ents(k) : e.n = n
Names(k) == {e.n : e \in Ents(k)}

\* Given: a sequence of [n |-> name, v |-> value]
Has(g, n) == \E j \in 1..Len(g) : g[j].n = n
At(g, n) == IF Has(g, n) THEN g[CHOOSE j \in 1..Len(g) : g[j].n = n].v ELSE "-"

\* The effective value of each property
Eff(k, g) == [n \in Names(k) |-> LET v == At(g, n) IN IF v = "-" /\ Ent(k, n).kind = "def" THEN "d" ELSE v]

\* The properties which are not read, given the others
Unread(k, f) == CASE k = "camera::pinhole" -> IF f["matrix"] # "-" THEN {"position", "center", "up"} ELSE {}
                  [] k = "renderer::pt" -> IF f["primary_ray_sampling_mode"] = "a" THEN {"spp"} ELSE {"num_samples"}
                  [] OTHER -> {}
\* The properties required because of the others
Also(k, f) == CASE k \in {"volume::constant", "volume::sphere", "volume::gaussian"} -> f["color"] # "-" \/ f["scalar"] # "-"
                [] k = "renderer::pt" -> IF f["primary_ray_sampling_mode"] = "a" THEN f["num_samples"] # "-" ELSE f["spp"] # "-"
                [] OTHER -> TRUE
Accepted(k, g) == LET f == Eff(k, g) IN
    /\ \A n \in Names(k) \ Unread(k, f) : f[n] # "x" /\ (Ent(k, n).kind = "req" => f[n] # "-")
    /\ Also(k, f)
\* Whether the configuration leaves open what happens (a malformed value nobody has to read)
Open(k, g) == LET f == Eff(k, g) IN \E n \in Unread(k, f) : f[n] = "x"
\* What is constructed
Meaning(k, g) == LET f == Eff(k, g) IN [n \in Names(k) |-> IF n \in Unread(k, f) THEN "-" ELSE f[n]]

Base(k) == [j \in 1..Len(Schema[k]) |-> [n |-> Schema[k][j].n, v |-> Schema[k][j].base]]
BaseMeaning(k) == Meaning(k, SelectSeq(Base(k), LAMBDA e : e.v # "-"))
\* Properties with no effect that could be seen here
Silent == {<<"film::bitmap", "quality">>,   \* images are not written in the format it is for
           <<"scheduler::spp::time", "render_time">>, <<"scheduler::spi::time", "samples_per_iter">>, <<"progress::delay", "delay">>}
\* Two meanings which must be told apart: next to the base they differ in one property
Differ(k, f, h) == {n \in Names(k) : f[n] # h[n]}
MustDiffer(k, f, h) == /\ Cardinality(Differ(k, f, h)) = 1
                       /\ LET n == CHOOSE n \in Differ(k, f, h) : TRUE IN
                          /\ <<k, n>> \notin Silent
                          /\ Differ(k, f, BaseMeaning(k)) \subseteq {n}
=============================================================================
