"""Histories over the built-in components ("zoo")."""
import json, random, struct, zlib

TRACE = "ZooTrace"


def png(w, h, ch, f):
    raw = b"".join(b"\0" + bytes(f(x, y, c) & 255 for x in range(w) for c in range(ch)) for y in range(h))
    def chunk(t, d):
        return struct.pack(">I", len(d)) + t + d + struct.pack(">I", zlib.crc32(t + d))
    return (b"\x89PNG\r\n\x1a\n" + chunk(b"IHDR", struct.pack(">IIBBBBB", w, h, 8, {3: 2, 4: 6}[ch], 0, 0, 0))
            + chunk(b"IDAT", zlib.compress(raw)) + chunk(b"IEND", b""))


OBJ = """mtllib %(m)s.mtl
v -1 0 %(z)s
v 1 0 %(z)s
v 1 1.5 %(z)s
v -1 1.5 %(z)s
v -.5 -1 1
v .5 -1 1
v 0 -.4 1.2
v 0 2 0
v .3 2 0
v 0 2 %(d)s
vt 0 0
vt 1 0
vt 1 1
vt 0 1
vn 0 0 1
vn 0 1 0
vn .6 0 .8
usemtl ma
f 1/1/1 2/2/1 3/3/1 4/4/1
usemtl mb
f 5/1/1 6/2/3 7/3/2
usemtl mc
f 8/1/2 9/2/2 10/4/2
usemtl md
f 1/1/1 2/2/1 7/3/1
usemtl mg
f 5/1/1 6/2/1 3/3/1
"""
MTL = """newmtl ma
Kd %(a)s .5 .2
Ks .3 .3 .3
Ns 20
map_Kd t1.png
illum 2
newmtl mb
Kd .1 %(a)s .7
Ks 0 0 0
illum 2
newmtl mc
Ke %(e)s 2 1
Kd .2 .2 .2
illum 2
newmtl md
Kd .3 .3 .3
Ks .5 .6 %(a)s
Ns 5
an .4
map_Kd t2.png
illum 2
newmtl mg
Kd .3 .3 .3
Ni 1.%(n)s
illum 7
"""


def files():
    f = {"t1.png": png(5, 4, 3, lambda x, y, c: 37 * x + 61 * y + 11 * c + 9), "t2.png": png(3, 3, 4, lambda x, y, c: 91 * x + 17 * y + 53 * c + 40),
         "t3.png": png(8, 4, 3, lambda x, y, c: 13 * x * x + 29 * y + 5 * c + 30),
         "o1.obj": (OBJ % {"m": "m1", "z": "0", "d": ".4"}).encode(), "o2.obj": (OBJ % {"m": "m2", "z": "-.3", "d": ".9"}).encode(),
         "m1.mtl": (MTL % {"a": ".8", "e": "4", "n": "5"}).encode(), "m2.mtl": (MTL % {"a": ".35", "e": "7", "n": "3"}).encode()}
    return {k: v.hex() for k, v in f.items()}


FILES = files()


class L:
    """A locator inside a property."""
    def __init__(self, n, ifc):
        self.n, self.ifc = n, ifc


def tri(k, dz=0.0):
    ps, ns, ts, fp = [], [], [], []
    for i in range(k):
        x = -1 + 2.0 * i / k
        ps += [x, -.8, dz + .1 * i, x + .9, -.7, dz, x + .3, .9, dz - .2 * i]
        ns += [0, 0, 1, 0, .6, .8, 0, 0, 1]
        ts += [0, 0, 1, 0, .5, 1]
        fp += [{"p": 3 * i + j, "n": 3 * i + j, "t": 3 * i + j} for j in range(3)]
    return {"ps": ps, "ns": ns, "ts": ts, "fs": {"p": [f["p"] for f in fp], "n": [f["n"] for f in fp], "t": [f["t"] for f in fp]}}


def catalogue():
    """name -> (interface, [variants]); a variant is (key, properties with locators)."""
    C = {}

    def add(n, ifc, *vs):
        C[n] = (ifc, list(vs))
    add("tc", "texture", ("texture::constant", {"color": [.1, .2, .3]}), ("texture::constant", {"color": [.4, .2, .9], "alpha": .25}), ("texture::bitmap", {"path": "t1.png"}))
    add("tb", "texture", ("texture::bitmap", {"path": "t1.png"}), ("texture::bitmap", {"path": "t2.png", "flip": False}), ("texture::constant", {"color": [.5, .6, .7]}))
    add("md", "material", ("material::diffuse", {"Kd": [.3, .6, .1], "mapKd": L("tb", "texture")}), ("material::diffuse", {"Kd": [.7, .1, .2]}), ("material::diffuse", {"mapKd": L("tc", "texture")}))
    add("mg", "material", ("material::glossy", {"Ks": [.8, .5, .2], "ax": .1, "ay": .3}), ("material::glossy", {"Ks": [.3, .5, .2], "ax": .4, "ay": .2}))
    add("mm", "material", ("material::mirror", {}), ("material::diffuse", {"Kd": [.2, .2, .2]}), ("material::mask", {}))
    add("ms", "material", ("material::glass", {"Ni": 1.5}), ("material::glass", {"Ni": 1.3}))
    add("mp", "material", ("material::proxy", {"ref": L("md", "material")}), ("material::proxy", {"ref": L("mg", "material")}))
    add("mx", "material", ("material::constant_weight_mixture_rr", [{"material": L("md", "material"), "weight": .3}, {"material": L("mg", "material"), "weight": .7}]),
        ("material::constant_weight_mixture_rr", [{"material": L("mg", "material"), "weight": .6}, {"material": L("mp", "material"), "weight": .4}]))
    add("my", "material", ("material::constant_weight_mixture_marginalized", [{"material": L("md", "material"), "weight": .5}, {"material": L("mg", "material"), "weight": .5}]),
        ("material::constant_weight_mixture_marginalized", [{"material": L("mg", "material"), "weight": .2}, {"material": L("md", "material"), "weight": .8}]))
    add("h1", "mesh", ("mesh::raw", tri(3)), ("mesh::raw", tri(3, .5)))
    add("h2", "mesh", ("mesh::wavefrontobj", {"path": "o1.obj"}), ("mesh::wavefrontobj", {"path": "o2.obj"}))
    add("ob", "model", ("model::wavefrontobj", {"path": "o1.obj"}), ("model::wavefrontobj", {"path": "o2.obj"}), ("model::wavefrontobj", {"path": "o1.obj", "base_material": L("md", "material")}),
        ("model::wavefrontobj", {"path": "o1.obj", "skip_specular_mat": True}))
    add("la", "light", ("light::area", {"Ke": [4, 3, 2], "mesh": L("h1", "mesh")}), ("light::area", {"Ke": [1, 5, 2], "mesh": L("h1", "mesh")}))
    add("lp", "light", ("light::point", {"Le": [4, 3, 2], "position": [0, 1, 2]}), ("light::point", {"Le": [1, 3, 9], "position": [.5, 1.5, 2]}))
    add("ld", "light", ("light::directional", {"Le": [1, 1, 2], "direction": [0, -1, -.5]}), ("light::directional", {"Le": [2, 1, .2], "direction": [.3, -1, -.5]}))
    add("le", "light", ("light::env", {"path": "t3.png", "rot": 30}), ("light::env", {"path": "t1.png", "scale": 2.5}), ("light::envconst", {"Le": [.3, .4, .6]}))
    add("ca", "camera", ("camera::pinhole", {"position": [0, .2, 4], "center": [0, .1, 0], "up": [0, 1, 0], "vfov": 40, "aspect": 1.5}),
        ("camera::pinhole", {"position": [.5, .7, 3.5], "center": [0, 0, 0], "up": [.1, 1, 0], "vfov": 55, "aspect": 1.2}))
    add("ph", "phase", ("phase::isotropic", {}), ("phase::hg", {"g": .4}), ("phase::hg", {"g": -.7}))
    add("v1", "volume", ("volume::constant", {"scalar": .6, "color": [.7, .6, .5], "bound_min": [-1, -1, -1], "bound_max": [1, 1, 1]}),
        ("volume::sphere", {"scalar": .9, "color": [.2, .6, .5], "radius": .8, "pos": [.1, 0, 0]}),
        ("volume::gaussian", {"scalar": 1.2, "color": [.9, .2, .5], "sigma": [.5, .6, .7], "pos": [0, .1, .2]}))
    add("v3", "volume", ("volume::checker", {"bound_min": [-2, -2, -2], "bound_max": [2, 2, 2]}), ("volume::checker", {"bound_min": [-1, -2, -1], "bound_max": [2, 1, 2]}))
    add("v2", "volume", ("volume::constant", {"color": [.7, .3, .2]}), ("volume::constant", {"color": [.1, .5, .9], "bound_min": [-2, -1, -1], "bound_max": [1, 1, 2]}))
    add("vm", "volume", ("volume::multi", {"volumes_alb": [L("v1", "volume")], "volumes_den": [L("v1", "volume")]}))
    add("e1", "medium", ("medium::homogeneous", {"density": .3, "albedo": [.8, .7, .4], "phase": L("ph", "phase"), "bound_min": [-3, -3, -3], "bound_max": [3, 3, 3]}),
        ("medium::homogeneous", {"density": .8, "albedo": [.3, .7, .4], "phase": L("ph", "phase")}),
        ("medium::heterogeneous", {"volume_density": L("v1", "volume"), "volume_albedo": L("v2", "volume"), "phase": L("ph", "phase")}),
        ("medium::heterogeneous", {"volume_density": L("v3", "volume"), "volume_albedo": L("v1", "volume"), "phase": L("ph", "phase")}))
    add("f1", "film", ("film::bitmap", {"w": 6, "h": 4}), ("film::bitmap", {"w": 5, "h": 5, "quality": 40}))
    add("f2", "film", ("film::bitmap", {"w": 4, "h": 4}), ("film::bitmap", {"w": 7, "h": 3}))
    add("ac", "accel", ("accel::sahbvh", {}))
    add("sc", "scene", ("scene::default", {"accel": L("ac", "accel")}))
    add("s2", "scene", ("scene::default", {"accel": L("ac", "accel")}))
    S = {"scene": L("sc", "scene"), "output": L("f1", "film")}
    spp = {"scheduler": "sample", "spp": 3}
    spi = {"scheduler": "sample", "num_samples": 60}
    add("r1", "renderer", ("renderer::raycast", dict(S)), ("renderer::raycast", dict(S, visualize_normal=True)), ("renderer::raycast", dict(S, use_constant_color=True, color=[.3, .4, .5], bg_color=[.1, 0, .2])),
        ("renderer::blank", {"color": [.5, .2, .8], "output": L("f1", "film")}))
    add("r2", "renderer", ("renderer::pt", dict(S, max_verts=5, seed=7, **spp)), ("renderer::pt", dict(S, max_verts=4, seed=9, sampling_mode="nee", **spp)),
        ("renderer::pt", dict(S, max_verts=5, seed=3, sampling_mode="naive", primary_ray_sampling_mode="image", **spi)))
    add("r3", "renderer", ("renderer::lt", dict(S, max_verts=5, seed=2, **spi)), ("renderer::lt_nee_path", dict(S, max_verts=4, seed=12, **spi)), ("renderer::pt_naive_path", dict(S, max_verts=4, seed=5, **spi)),
        ("renderer::pt_nee_path", dict(S, max_verts=4, min_verts=3, seed=15, **spi)))
    add("r4", "renderer", ("renderer::bdpt", dict(S, max_verts=4, seed=21, **spi)), ("renderer::bdptopt", dict(S, max_verts=5, seed=22, **spi)), ("renderer::bdptopt", dict(S, max_verts=4, min_verts=3, seed=1, **spi)))
    add("r5", "renderer", ("renderer::volpt", dict(S, max_verts=5, seed=31, rr_prob=.3, **spp)), ("renderer::volpt_naive", dict(S, max_verts=4, seed=32, **spp)))
    add("d1", "scheduler", ("scheduler::spp::sample", {"spp": 3, "output": L("f2", "film")}), ("scheduler::spi::sample", {"num_samples": 50}))
    return C


CAT = catalogue()
ORDER = list(CAT)
GEOM = {"h1", "h2", "ob"}
LIGHTS = {"la", "lp", "ld", "le"}


class World:
    def __init__(self, base):
        self.base = base
        self.v = {}

    def path(self, n):
        return self.base + [n]

    def loc(self, n):
        return "$.assets." + ".".join(self.path(n))

    def conv(self, x, uses, req):
        if isinstance(x, L):
            uses.append(self.path(x.n))
            req.append([self.path(x.n), [x.ifc]])
            return self.loc(x.n), "@" + x.n
        if isinstance(x, dict):
            a, b = {}, {}
            for k in sorted(x):
                a[k], b[k] = self.conv(x[k], uses, req)
            return a, b
        if isinstance(x, list):
            r = [self.conv(y, uses, req) for y in x]
            return [y[0] for y in r], [y[1] for y in r]
        return x, x

    def load(self, n, v, okp=True, **over):
        ifc, vs = CAT[n]
        key, prop = vs[v]
        uses, req = [], []
        if "whole" in over:
            prop = over["whole"]
        elif isinstance(prop, dict):
            prop = dict(prop, **over.get("extra", {}))
        p, t = self.conv(prop, uses, req)
        key = over.get("key", key)
        for k in over.get("drop", ()):
            p.pop(k, None)
        txt = zlib.crc32(json.dumps(t, sort_keys=True).encode())
        if okp:
            self.v[n] = v
        return {"op": "Load", "g": self.base, "n": over.get("name", n), "path": self.path(over.get("name", n)), "key": key, "ifc": ifc, "prop": p, "ptxt": "%s/%08x" % (n if False else "p", txt),
                "uses": uses, "req": req, "okp": okp}

    def group(self):
        out = []
        for i in range(len(self.base)):
            out.append({"op": "Load", "g": self.base[:i], "n": self.base[i], "path": self.base[:i + 1], "key": "asset_group::default", "ifc": "asset_group", "prop": {}, "ptxt": "", "uses": [], "req": [], "okp": True})
        return out

    def prim(self, scene, kind, **refs):
        m = refs.pop("_m", None)
        u = [self.path(x) for x in refs.values()]
        g = [self.path(x) for k, x in refs.items() if k in ("mesh", "model")]
        p = {k: self.loc(x) for k, x in refs.items()}
        if m:
            p["_m"] = m
        return {"op": "Mod", "p": self.path(scene), "k": kind, "t": "%s:%s:%s" % (kind, ",".join(sorted(refs)), m), "u": u, "gu": g, "prop": p}

    def scene_script(self, s, lights=("la", "lp"), model=True, medium=False, env=False):
        ops = [self.mod(s, "sreset")]
        ops.append(self.prim(s, "prim", camera="ca"))
        ops.append(self.prim(s, "prim", mesh="h1", material="md", light="la"))
        ops.append(self.prim(s, "prim", mesh="h2", material="mx", _m=[.2, .1, -.5, 1.2]))
        ops.append(self.prim(s, "inst", mesh="h1", material="mp"))
        if model:
            ops.append(self.prim(s, "prim", model="ob", _m=[-.3, .2, -.2, .8]))
        for l in lights:
            if l != "la":
                ops.append(self.prim(s, "prim", light=l))
        if env:
            ops.append(self.prim(s, "prim", light="le"))
        if medium:
            ops.append(self.prim(s, "prim", medium="e1"))
        ops.append(self.mod(s, "build"))
        return ops

    def mod(self, n, k, t="", **prop):
        return {"op": "Mod", "p": self.path(n), "k": k, "t": k + t, "u": [], "gu": [], "prop": prop}

    def render(self, n):
        return {"op": "Render", "p": self.path(n), "film": self.path("f1")}

    def probe(self, extra=()):
        return {"op": "Probe", "paths": [self.path(n) for n in ORDER] + list(extra)}


def film_op(w, r, n="f2"):
    k = r.choice(["filmset", "filmsplat", "filmclear"])
    if k == "filmclear":
        return w.mod(n, k)
    x, y, v = r.randint(0, 2), r.randint(0, 2), [r.randint(0, 9) / 4.0 for _ in range(3)]
    return w.mod(n, k, ":%d,%d,%s" % (x, y, v), x=x, y=y, v=v)


def opts(r):
    return {"lights": r.choice([("la",), ("la", "lp"), ("la", "ld"), ("la", "lp", "ld")]), "model": r.random() < .7, "medium": r.random() < .4, "env": r.random() < .4}


def rebuild(w, var, opt, films=()):
    """A fresh world with the given variants: loads in catalogue order, scene, build."""
    ops = w.group() + [w.load(n, var[n]) for n in ORDER]
    ops += w.scene_script("sc", **opt)
    return ops + list(films)


def renders(w, r, k, medium):
    out = []
    for n in r.sample(["r1", "r2", "r3", "r4"] + (["r5"] if medium else []), k):
        out += [w.render(n), {"op": "Probe", "paths": [w.path("f1")]}]
    return out


def fit(opt):
    return opt


def history(r, n_edits, fails=0.1, saves=0.2, nrender=2, base=None):
    """World, random replacements (with failures, saves and loads in between), compared with a fresh world."""
    base = base if base is not None else r.choice([[], ["w"], ["w", "q"]])
    w = World(base)
    var = {n: r.randrange(len(CAT[n][1])) for n in ORDER}
    opt = opts(r)
    first = dict(var)
    ops = rebuild(w, var, opt)
    films = []
    for _ in range(r.randint(0, 3)):
        films.append(film_op(w, r))
    ops += films
    if r.random() < .5:
        ops.append(w.probe())
    ncopy = 0
    for _ in range(n_edits):
        q = r.random()
        if q < fails:
            ops += fail_load(w, r)
            continue
        if q < fails + saves:
            z = r.random()
            if z < .5 or not w.base:
                f = r.choice(["st1", "st2"])
                ops.append({"op": "SaveState", "f": f})
                if r.random() < .5:
                    # something else happens in between
                    n = r.choice(ORDER)
                    ops.append(w.load(n, r.randrange(len(CAT[n][1]))))
                    w.v[n] = var[n]
                    if r.random() < .5:
                        ops.append({"op": "Reset"})
                ops.append({"op": "LoadState", "f": f})
            else:
                # the whole world is copied under another name; the copy is what goes on living
                old = w.base
                ncopy += 1
                w.base = old[:-1] + ["c%d" % ncopy]
                ops += [{"op": "Save", "p": old, "f": "sub"}]
                if r.random() < .3:
                    ops.append({"op": "LoadSer", "g": old[:-1], "n": old[-1], "f": "sub"})
                if r.random() < .3:
                    ops.append({"op": "Reset"})
                    ops += World(w.base[:-1]).group()
                ops += [{"op": "LoadSer", "g": old[:-1], "n": w.base[-1], "f": "sub"}, {"op": "Probe", "paths": [old + [n] for n in ORDER]}]
            if r.random() < .7:
                ops.append(w.probe())
            if r.random() < .3:
                n = r.choice(ORDER)
                ops.append({"op": "Save", "p": w.path(n), "f": "one"})
                if all(x[0] != "" for x in [CAT[n]]):
                    ops.append({"op": "LoadSer", "g": w.base, "n": "copy%d" % len(ops), "f": "one", "_n": n})
                    # only what does not refer to anything can be saved on its own
                    if w.load(n, var[n])["uses"] or n in ("sc", "s2"):
                        ops.pop()
                    else:
                        ops.append({"op": "Probe", "paths": [w.path(n), w.base + [ops[-1]["n"]]]})
            continue
        n = r.choice(ORDER)
        # the names of the parts of a model depend on whether materials are taken from the file
        renamed = n == "ob" and 2 in (var[n], -1)
        var[n] = r.randrange(len(CAT[n][1]))
        renamed = renamed or n == "ob" and var[n] == 2
        ops.append(w.load(n, var[n]))
        if n == "f2":
            films = []
        if n in GEOM or n in LIGHTS or n in ("ac", "sc", "s2", "e1"):
            # the acceleration structure refers to triangles and lights to the bound: build again
            if n in ("h1",):
                ops.append(w.load("la", var["la"]))
            if n == "v1":
                pass
            if n == "e1":
                pass
            elif n != "sc" and not renamed and r.random() < .6:
                # the scene graph is kept: the scene has to follow the replacement
                ops.append(w.mod("sc", "build"))
            else:
                opt = opts(r) if r.random() < .3 else opt
                ops += w.scene_script("sc", **opt)
        if n == "v1":
            ops.append(w.load("vm", var["vm"]))
    # components that capture from others are constructed again where what they captured has changed
    for n in ("vm", "ob"):
        ops.append(w.load(n, var[n]))
    ops.append(w.mod("sc", "build"))
    ops.append(w.probe())
    rr = random.Random(r.randrange(1 << 30))
    st = rr.getstate()
    ops += renders(w, rr, nrender, opt["medium"])
    ops.append({"op": "Reset"})
    w2 = World(base if r.random() < .5 else r.choice([["z"], [], ["w"]]))
    ops += rebuild(w2, var, opt, films=[dict(f, p=w2.path("f2")) for f in films])
    ops.append(w2.probe())
    rr.setstate(st)
    ops += renders(w2, rr, nrender, opt["medium"])
    return {"ops": ops, "files": FILES}


BAD = [  # (asset, what is wrong)
    ("tc", {"drop": ["color", "path"]}), ("tb", {"key": "texture::nonexistent"}), ("mp", {"drop": ["ref"]}), ("mg", {"drop": ["ax"]}), ("ms", {"drop": ["Ni"]}),
    ("h2", {"drop": ["path"]}), ("la", {"drop": ["Ke"]}), ("la", {"drop": ["mesh"]}), ("lp", {"drop": ["Le"]}), ("ld", {"drop": ["direction"]}), ("ca", {"drop": ["vfov"]}), ("ca", {"drop": ["position"]}),
    ("ca", {"drop": ["aspect"]}), ("f1", {"drop": ["w"]}), ("f2", {"key": "film::none"}), ("e1", {"drop": ["phase"]}), ("vm", {"drop": ["volumes_alb"]}),
    ("tb", {"extra": {"path": "nothere.png"}, "key": "texture::bitmap"}), ("h2", {"extra": {"path": "nothere.obj"}}), ("ob", {"extra": {"path": "nothere.obj"}}), ("le", {"key": "light::env", "extra": {"path": "nothere.png"}}),
    ("r1", {"drop": ["output"]}), ("r2", {"drop": ["scene"]}), ("r2", {"drop": ["max_verts"]}), ("r3", {"drop": ["scheduler"]}), ("r4", {"drop": ["output"]}), ("r5", {"drop": ["max_verts"]}),
    ("mp", {"extra": {"ref": "$.assets.nothing"}}), ("la", {"extra": {"mesh": "$.assets.nothing"}}), ("e1", {"extra": {"phase": "bogus"}}), ("r2", {"extra": {"scene": "$.assets"}}),
    ("md", {"extra": {"Kd": [1, 2]}}), ("ca", {"extra": {"up": "up"}}), ("f1", {"extra": {"w": "wide"}}), ("mg", {"extra": {"ay": [1, 2, 3]}}), ("lp", {"extra": {"position": [0, 1]}}),
    ("vm", {"extra": {"volumes_alb": ["$.assets.nothing"], "volumes_den": ["$.assets.nothing"]}}), ("vm", {"extra": {"volumes_alb": [], "volumes_den": []}}),
    ("mx", {"whole": [{"weight": .5}]}), ("mx", {"whole": [{"material": "$.assets.nothing", "weight": .5}]}), ("my", {"whole": [{"material": "$.assets.nothing", "weight": .5}]}),
    ("h1", {"extra": {"path": "x"}, "key": "mesh::none"}), ("sc", {"key": "scene::none"}), ("ac", {"key": "accel::none"}), ("ph", {"key": "phase::hg", "drop": ["g"]}),
    ("d1", {"drop": ["spp", "num_samples"]}),
]


def fail_load(w, r):
    n, over = r.choice(BAD)
    if r.random() < .15:
        over = {"name": r.choice(["a.b", "", "x y", "a/b", "$"])}
    keep = dict(w.v)
    v = r.randrange(len(CAT[n][1]))
    op = w.load(n, v, okp=False, **over)
    w.v = keep
    return [op]


def scripts(c, n, **kw):
    return [history(c.rng, **kw) for _ in range(n)]


def corrupt(t):
    seen = {}
    for e in t["ev"]:
        if e["op"] == "Probe":
            for o in e["obs"]:
                if o["p"] in seen.values() and o["d"] != "none" or True:
                    pass
    for e in reversed(t["ev"]):
        if e["op"] == "Probe" and e["obs"]:
            e["obs"][0]["d"] = "0000"
            if e["obs"][0]["p"]:
                return t
    return None


# ------------------------------------------------------------------ histories from the specification
import os


def macros(names, base, opt, saves=True):
    """boot world and the menu of MCZoo."""
    w = World(base)
    var = {n: 0 for n in ORDER}
    boot = rebuild(w, var, opt)
    menu = []
    for n in names:
        for v in range(len(CAT[n][1])):
            ops = [w.load(n, v)]
            if n == "h1":
                ops.append(w.load("la", 0))
            if n == "v1":
                ops.append(w.load("vm", 0))
            if n == "md":
                pass
            if n in ("sc", "ob"):
                ops += w.scene_script("sc", **opt)
            elif n in GEOM or n in LIGHTS or n == "ac":
                ops.append(w.mod("sc", "build"))
            menu.append(ops)
    if saves:
        menu.append([{"op": "SaveState", "f": "st"}])
        menu.append([{"op": "LoadState", "f": "st"}])
        menu.append([{"op": "Save", "p": base, "f": "sub"}, {"op": "Reset"}] + World(base[:-1]).group() + [{"op": "LoadSer", "g": base[:-1], "n": base[-1], "f": "sub"}])
        menu.append([{"op": "Save", "p": base, "f": "sub"}, {"op": "LoadSer", "g": base[:-1], "n": base[-1], "f": "sub"}])
        for n in names[:4]:
            menu.append([w.load(n, 0, okp=False, key="none::none")])
    return boot, menu


def from_spec(c, names, k, opt, simulate=None, nrender=1, base=("w",), saves=True):
    base = list(base)
    boot, menu = macros(names, base, opt, saves)
    def strip(o):
        return {k: v for k, v in o.items() if k != "prop"}
    p = os.path.join(c.run_dir, "menu_%d.json" % len(c.model_runs))
    with open(p, "w") as f:
        json.dump({"boot": [strip(o) for o in boot], "menu": [[strip(o) for o in m] for m in menu]}, f)
    cfg = "SPECIFICATION Spec\nCONSTANTS K = %d\nINVARIANTS Relocatable NoNull\nCONSTRAINT Emit\n" % k
    b = c.behaviours("MCZoo", cfg, "%s over %s" % ("%d random histories of length %d" % (simulate, k) if simulate else "all histories of length %d" % k, " ".join(names)),
                     simulate=simulate, depth=k + 1, env={"MENU": p}, heap="8g")
    lookup = {}
    w = World(base)
    for n in ORDER:
        for v in range(len(CAT[n][1])):
            o = w.load(n, v)
            lookup[(n, o["key"], o["ptxt"])] = v
    out = []
    for x in b:
        rr = random.Random(c.rng.randrange(1 << 30))
        st = rr.getstate()
        ops = list(boot) + [w.probe()]
        for m in x["h"]:
            ops += menu[m - 1] + [w.probe()]
        var = {p[-1]: lookup[(p[-1], kp[0], kp[1])] for p, kp in x["v"] if len(p) > len(base)}
        ops += renders(w, rr, nrender, opt["medium"])
        ops.append({"op": "Reset"})
        w2 = World(["z"])
        ops += rebuild(w2, var, opt) + [w2.probe()]
        rr.setstate(st)
        ops += renders(w2, rr, nrender, opt["medium"])
        out.append({"ops": ops, "files": FILES})
    return out
