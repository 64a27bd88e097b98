"""Configurations of the built-in components ("zoo" suite)."""
import random
import common_zoo as Z

TRACE = "PropsTrace"
MODEL = "CONSTANTS D = %d\nSPECIFICATION Spec\nINVARIANT Sane OrderFree UnknownFree DefaultFree Noticed\nCHECK_DEADLOCK FALSE\n"
GEN = "CONSTANTS D = %d\nSPECIFICATION Spec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n"
A = "$.assets."
V3x, Fx = [1, 2], "abc"


def vals(a, b, x, d=None):
    return {"a": a, "b": b, "x": x, "d": d}


def vec(a, b, d=None):
    return vals(a, b, [[1, 2], 5, "v", ["p", 1, 2], [1, 2, 3, 4]], d)


def num(a, b, d=None):
    return vals(a, b, ["abc", [1], [1, 2, 3], {"v": 1}], d)


def ref(a, b, *wrong):
    return vals(A + a, None if b is None else A + b, [A + "nothing", 3, "", a] + [A + w for w in wrong])


RAW = {"a": {"ps": [-1, 0, 0, 1, 0, 0, 0, 1, 0, 1, 1, 1], "ns": [0, 0, 1, 0, .6, .8], "ts": [0, 0, 1, 0, 0, 1], "fs": {"p": [0, 1, 2, 1, 2, 3], "n": [0, 0, 1, 1, 0, 0], "t": [0, 1, 2, 2, 1, 0]}},
       "b": {"ps": [-1, 0, 0, 1, 0, .5, 0, 1, 0, 1, 1, 1], "ns": [0, 0, -1, 0, .6, .8], "ts": [0, 0, 1, 0, 0, .5], "fs": {"p": [0, 1, 3, 1, 2, 0], "n": [0, 1, 1, 1, 0, 0], "t": [2, 1, 2, 2, 1, 0]}},
       "x": {"ps": [[0, 0], [0, 0, 0, 1], "p", 4], "ns": [[0, 0], "n"], "ts": [[0], "t", [0, 0, 0]],
             "fs": [{"p": [0, 1, 2], "n": [0, 0, 0]}, {"p": [0, 1, 2], "t": [0, 0, 0]}, {"n": [0, 1, 2], "t": [0, 0, 0]}, {"p": [0, 1, 9], "n": [0, 0, 0], "t": [0, 0, 0]}, {"p": [0, 1, 2], "n": [0, 0, 5], "t": [0, 0, 0]},
                    {"p": [0, 1, 2], "n": [0, 0], "t": [0, 0, 0]}, {"p": [0, 1, 2], "n": [0, 0, 0], "t": [0, -1, 0]}, [0, 1, 2], 7]}}
INF = 1e10
VALUES = {
    ("material::diffuse", "mapKd"): ref("t1", "t2"),
    "Kd": vec([.3, .6, .1], [.3, .6, .2], [1, 1, 1]), "Ks": vec([.8, .5, .2], [.7, .5, .2]), "ax": num(.1, .3), "ay": num(.2, .4), "Ni": num(1.5, 1.3),
    "ref": ref("m1", "m2", "t1"), "alpha": num(.25, .5), ("texture::constant", "color"): vec([.1, .2, .3], [.1, .2, .4]),
    "path": vals("t1.png", "t3.png", ["missing.png", 4, ""]), "flip": vals(None, False, ["yes", 1, [True]], True),
    ("mesh::wavefrontobj", "path"): vals("o1.obj", "o2.obj", ["missing.obj", 4, ""]),
    "Le": vec([4, 3, 2], [4, 3, 1]), "position": vec([0, .2, 4], [0, .3, 4]), "direction": vec([0, -1, -.5], [.2, -1, -.5]), "rot": num(30, 70, 0), "scale": num(2.5, .5, 1),
    "Ke": vec([4, 3, 2], [1, 3, 2]), "mesh": ref("h1", "h2", "m1"), "center": vec([0, .1, 0], [.4, .1, 0]), "up": vec([0, 1, 0], [.2, 1, 0]),
    "matrix": vals([1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 5, 1], [1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 1, 0, 5, 1], [[1, 2, 3], 5, "m"]),
    "vfov": num(40, 55), "aspect": num(1.5, 1.2), "g": num(.4, -.7), "color": vec([.7, .6, .5], [.7, .6, .2]), "scalar": num(.6, .9),
    ("volume::constant", "bound_min"): vec([-1, -1, -1], [-2, -1, -1], [INF] * 3), ("volume::constant", "bound_max"): vec([1, 1, 1], [1, 2, 1], [-INF] * 3),
    "pos": vec([.1, 0, 0], [0, .2, 0], [0, 0, 0]), "radius": num(.8, 1.3, 1), "sigma": vec([.5, .6, .7], [.5, .9, .7], [1, 1, 1]),
    "bound_min": vec([-1, -1, -1], [-.6, -1, -1], [-INF] * 3), "bound_max": vec([1, 1, 1], [1, .7, 1], [INF] * 3),
    "density": num(.3, .8), "albedo": vec([.8, .7, .4], [.8, .7, .5]), "phase": ref("p1", "p2", "t1"),
    "volume_density": ref("v1", "v2", "t1"), "volume_albedo": ref("v2", "v1", "t1"),
    "w": num(6, 5), "h": num(4, 7), "quality": num(40, 70, 90), "spp": num(60, 65), "num_samples": num(3000, 3100), "output": ref("f", "f2", "t1"), "scene": ref("s", None, "m1"),
    "render_time": num(.001, None), "samples_per_iter": num(None, None, 100000), "delay": num(10, None),
    "progress": vals({"progress::default": {}}, None, [{"progress::nothing": {}}, {}, 3, "progress::default", []]),
    "bg_color": vec([.1, .2, .3], [.3, .2, .1], [0, 0, 0]), "use_constant_color": vals(None, True, ["yes", 1], False), "visualize_normal": vals(None, True, ["yes", 1], False),
    "scheduler": vals("sample", None, ["nothing", 3, ""]), "max_verts": num(5, 3), ("renderer::volpt", "max_verts"): num(12, 4), ("renderer::volpt_naive", "max_verts"): num(12, 4), "seed": vals(7, 8, ["abc", [1]]),
    "sampling_mode": vals("naive", "nee", ["bogus", "", 3, "MIS"], "mis"), "primary_ray_sampling_mode": vals("image", None, ["bogus", "", 3], "pixel"),
    "min_verts": num(3, 4, 2), "rr_prob": num(.4, .7, .2),
}
for n in ("ps", "ns", "ts", "fs"):
    VALUES[n] = {"a": RAW["a"][n], "b": RAW["b"][n], "x": RAW["x"][n]}

SETUP = [("t1", "texture::constant", {"color": [.2, .4, .6]}), ("t2", "texture::constant", {"color": [.6, .4, .2]}),
         ("m1", "material::diffuse", {"Kd": [.5, .6, .7]}), ("m2", "material::glossy", {"Ks": [.5, .6, .7], "ax": .3, "ay": .3}),
         ("h1", "mesh::raw", RAW["a"]), ("h2", "mesh::raw", RAW["b"]), ("p1", "phase::hg", {"g": .3}), ("p2", "phase::hg", {"g": -.3}),
         ("v1", "volume::constant", {"scalar": .6, "color": [.7, .6, .5], "bound_min": [-1, -1, -1], "bound_max": [1, 1, 1]}),
         ("v2", "volume::sphere", {"scalar": .9, "color": [.2, .6, .5], "radius": .8, "pos": [.1, 0, 0]}),
         ("f", "film::bitmap", {"w": 6, "h": 5}), ("f2", "film::bitmap", {"w": 3, "h": 5})]
STAGE = [("wall", "mesh::raw", Z.tri(3)), ("box", "mesh::wavefrontobj", {"path": "o1.obj"}), ("cam", "camera::pinhole", {"position": [0, .3, 3], "center": [0, .2, 0], "up": [0, 1, 0], "vfov": 70, "aspect": 1.2}),
         ("lamp", "mesh::raw", {"ps": [-1, 3, -1, -1, 3, 3, 1, 3, -1, 1, 3, 3], "ns": [0, -1, 0], "ts": [0, 0], "fs": {"p": [0, 2, 1, 1, 2, 3], "n": [0] * 6, "t": [0] * 6}}),
         ("la", "light::area", {"Ke": [6, 5, 4], "mesh": A + "lamp"}), ("ac", "accel::sahbvh", {}), ("le", "light::envconst", {"Le": [.5, .6, .7]}), ("white", "material::diffuse", {"Kd": [.99, .98, .97]}),
         ("med", "medium::homogeneous", {"density": .6, "albedo": [.99, .98, .97], "phase": A + "p1", "bound_min": [-4, -4, -4], "bound_max": [4, 4, 4]}), ("s", "scene::default", {"accel": A + "ac"})]


def value(rng, key, n, v):
    t = VALUES.get((key, n), VALUES.get(n))
    if v != "x":
        return t[v]
    x = t["x"]
    return rng.choice(x)


def concrete(rng, key, g):
    p = [(e["n"], value(rng, key, e["n"], e["v"])) for e in g]
    extra = rng.random() < .4
    if extra:
        p.append((rng.choice(["note", "zz", "colour", "Kdd", "name"]), rng.choice([1, "x", [1, 2], None, {"a": 1}])))
    rng.shuffle(p)
    return dict(p)


def is_renderer(k):
    return k.startswith("renderer::")


def setup(key):
    ops = [{"op": "Load", "g": [], "n": n, "path": [n], "key": k, "prop": p} for n, k, p in SETUP]
    if is_renderer(key):
        ops += [{"op": "Load", "g": [], "n": n, "path": [n], "key": k, "prop": p} for n, k, p in STAGE]
        for pr in [{"camera": A + "cam"}, {"mesh": A + "wall", "material": A + "white"}, {"mesh": A + "box", "material": A + "m2"}, {"mesh": A + "lamp", "material": A + "m1", "light": A + "la"}] \
                + ([{"medium": A + "med"}] if "volpt" in key else []) + ([{"light": A + "le"}] if key != "renderer::raycast" else []):
            ops.append({"op": "Mod", "p": ["s"], "k": "prim", "prop": pr})
        ops.append({"op": "Mod", "p": ["s"], "k": "build", "prop": {}})
    return ops


def session(rng, key, gs):
    ops = setup(key)
    n, some = "subject", False
    for b in gs:
        g = b["g"]
        ops.append({"op": "Load", "g": [], "n": n, "path": [n], "key": key, "prop": concrete(rng, key, g), "g0": g, "open": b["open"]})
        some = some or b["ok"]
        if is_renderer(key):
            if some:
                ops.append({"op": "Render", "p": [n]})
                ops.append({"op": "Probe", "paths": [["f"]]})
        else:
            ops.append({"op": "Probe", "paths": [[n]]})
    return {"files": Z.FILES, "ops": ops}


def sessions(rng, bs, per, some=None):
    by = {}
    for b in bs:
        if not b["open"] or rng.random() < .2:
            by.setdefault(b["k"], []).append(b)
    out = []
    for k in sorted(by):
        l = sorted(by[k], key=lambda b: str(b))
        base = [b for b in l if b["ok"]]
        rng.shuffle(l)
        if some:
            l = l[:some]
        for i in range(0, len(l), per):
            out.append(session(rng, k, l[i:i + per]))
    return out


def corrupt(t, rng=random.Random(5)):
    """A verdict on a configuration changed, or a digest that changed although nothing was loaded."""
    ev = t["ev"]
    c = [e for e in ev if "g0" in e and not e["open"]]
    last, n = None, 0
    for e in ev:
        if "g0" in e and e["out"] == "ok":
            last = None
        if e["op"] == "Probe":
            if last == e["obs"][0]["d"]:
                c.append(e)
            last = e["obs"][0]["d"]
    if not c:
        return None
    e = rng.choice(c)
    if e["op"] == "Probe":
        e["obs"][0]["d"] = "0"
    else:
        e["out"] = "fail" if e["out"] == "ok" else "ok"
    return t
