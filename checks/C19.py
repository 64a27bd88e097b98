import units
import common_transport as T
from common_sampling import A, L, P

TRACE = "ReproTrace"
MODEL = "SPECIFICATION Spec\nCONSTANTS K = %d Seeds = {1, 11} Threads = 2 Mutant = \"none\"\nINVARIANTS Reproducible\n"
GEN = "SPECIFICATION Spec\nCONSTANTS K = %d Seeds = {1, 11} Threads = 2 Mutant = \"none\"\nINVARIANTS Emit\n"
KEYS = ["pt", "lt", "bdpt", "bdptopt", "pt_naive_path", "pt_nee_path", "lt_nee_path", "volpt", "volpt_naive"]


def configs(rng):
    out = []
    for k in KEYS:
        p = {"scheduler": "sample", "spp": rng.choice([1, 3, 8]), "num_samples": rng.choice([20, 70]), "max_verts": rng.choice([4, 7])}
        if k in T.PATH:
            p["min_verts"] = 2
        if k == "pt":
            p.update(sampling_mode=rng.choice(["naive", "nee", "mis"]), primary_ray_sampling_mode=rng.choice(["pixel", "image"]))
        out.append({"cfg": k, "key": k, "prop": p, "fixed": False})
    return out


RAY = {"cfg": "raycast", "key": "raycast", "prop": {}, "fixed": True}


def scene(rng):
    a, p = T.stage(rng, T.some_material("m0", rng) + T.some_material("m1", rng) + T.some_material("m2", rng), smooth=True)
    a += [A("l", "light::area", {"Ke": [8, 6, 4], "mesh": L("q")}), A("e", "light::envconst", {"Le": [.5, .5, .7]})]
    p += [P("l", T.T(0, -.5, 5, .9, .7, 1, flip=True), mesh="q", material="k", light="l")]
    p += [P("e", light="e")]
    return {"assets": a, "prims": p}


def concrete(rng, b):
    """two renderers stand for the two configurations"""
    cs = rng.sample(configs(rng), 2)
    return dict(scene(rng), ops=[dict(cs[o["cfg"] - 2], op="Render", seed=o["seed"], again=rng.random() < .5) for o in b])


def session(rng, n):
    cs = rng.sample(configs(rng), 3) + [RAY]
    ops = []
    for _ in range(n):
        k = rng.random()
        if k < .7:
            c = rng.choice(cs)
            ops.append(dict(c, op="Render", seed=0 if c["fixed"] or rng.random() < .1 else rng.choice([1, 2, 257, 65537, 2147483647, 2147483649]), again=rng.random() < .5))
        else:
            ops.append({"op": rng.choice(["Reset", "Restart", "Rebuild", "Save", "Threads", "Threads"]), "n": rng.choice([1, 1, 1, 2, 4, 8])})
    return dict(scene(rng), ops=ops)


def spread(rng, key, reps):
    c = [x for x in configs(rng) if x["key"] == key][0]
    c["prop"].update(spp=400, num_samples=1600, max_verts=4)
    return dict(scene(rng), ops=[dict(c, op="Spread", w=2, h=2, n=rng.choice([6, 8]), reps=reps, seeded=rng.random() < .7, tol=300)])


def even(rng, key, reps):
    """contributions are bounded here, so a smaller excess of noise shows"""
    c = [x for x in configs(rng) if x["key"] == key][0]
    c["prop"].update(spp=200, num_samples=800, max_verts=3)
    if key == "pt":
        c["prop"].update(sampling_mode="naive", primary_ray_sampling_mode="image")
    q = [A("q", "mesh::raw", T.QUAD), A("m", "material::diffuse", {"Kd": [.8, .5, .6]}), A("k", "material::diffuse", {"Kd": [0, 0, 0]}), A("e", "light::envconst", {"Le": [1, 1, 1]}), T.cam([0, -4, 3], [0, 0, 1])]
    p = [P("c", camera="cam"), P("f", T.T(s=3), mesh="q", material="m"), P("b", T.T(.5, .3, 1, 1, 1, 1), mesh="q", material="k"), P("e", light="e")]
    return {"assets": q, "prims": p, "ops": [dict(c, op="Spread", w=2, h=2, n=8, reps=reps, seeded=True, tol=170)]}


def corrupt(t):
    seen = set()
    for e in t["ev"]:
        if e["op"] == "Render" and e["threads"] == 1 and e["seed"]:
            k = (e["cfg"], e["seed"])
            if k in seen:
                e["im"] += "0"
                return t
            seen.add(k)
    return None


def check(c):
    c.build(units.UNITS, plugins=units.plugins())
    c.model_check("MCRepro", MODEL % c.pick(4, 6), "all histories of renderings")
    b = c.behaviours("MCRepro", GEN % c.pick(3, 4), "histories of renderings")
    tr = c.judge("repro", TRACE, [concrete(c.rng, x) for x in b], "histories of the specification", repeat=False)
    c.corrupt_check(TRACE, tr, corrupt)
    c.judge("repro", TRACE, [session(c.rng, c.rng.randint(5, 15)) for _ in range(c.pick(150, 3000))], "longer histories", repeat=False)
    c.judge("repro", TRACE, [even(c.rng, k, c.pick(250, 2000)) for k in ("pt", "pt_naive_path", "bdpt", "bdptopt", "volpt_naive")], "noise in an even light", timeout=300, jobs=1, repeat=True)
    c.judge("repro", TRACE, [spread(c.rng, k, c.pick(100, 300)) for k in KEYS], "noise by the number of threads", timeout=300, jobs=2, repeat=False)
