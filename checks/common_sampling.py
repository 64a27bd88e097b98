"""Scenes and measurements for the sampling routines."""
import math


QUAD = {"ps": [-1, -1, 0, 1, -1, 0, 1, 1, 0, -1, 1, 0], "ns": [0, 0, 1], "ts": [0, 0, 1, 0, 1, 1, 0, 1],
        "fs": {"p": [0, 1, 2, 0, 2, 3], "n": [0] * 6, "t": [0, 1, 2, 0, 2, 3]}}
# two triangles of different size and orientation
ROOF = {"ps": [0, 0, 0, 2, 0, 0, 0, 1, 0, 0, 0, 3], "ns": [0, 0, 1, 0, 1, 0], "ts": [0, 0],
        "fs": {"p": [0, 1, 2, 0, 3, 1], "n": [0, 0, 0, 1, 1, 1], "t": [0] * 6}}
CAM = {"position": [0, 0, 5], "center": [0, 0, 0], "up": [0, 1, 0], "vfov": 60, "aspect": 1.5}


def A(name, impl, prop):
    return {"name": name, "impl": impl, "prop": prop}


def L(n):
    return "$.assets." + n


def P(name, M=None, **refs):
    d = {"name": name, "prop": {k: L(v) for k, v in refs.items()}}
    if M:
        d["M"] = M
    return d


def ppm(w, h, px, name="env.ppm"):
    b = list(("P6\n%d %d\n255\n" % (w, h)).encode()) + [c for p in px for c in p]
    return {"name": name, "bytes": b}


DUMMY = [A("dcam", "camera::pinhole", CAM)]
GEOMS = [{"p": [0, 0, 0], "n": [0, 0, 1]}, {"p": [1, 2, 3], "n": [1, -2, 2]}, {"p": [0, 1, 0], "n": [0, 0, -1]},
         {"p": [0, 0, 0], "n": [0.2, 0.1, 1], "gn": [0, 0, 1]}, {"p": [0, 0, 0], "n": [-1, 0, 0.3], "gn": [-1, 0.2, 0.2]}]


def wis(g, rng):
    """directions on both sides of the surface, some grazing"""
    n = g["n"]
    out = []
    for s, k in ((1, .1), (1, 1.2), (-1, .6)):
        while True:
            w = [s * n[i] + k * rng.uniform(-1, 1) for i in range(3)]
            # the lobes of a microfacet model seen edge-on are too narrow for the quadrature
            if abs(sum(a * b for a, b in zip(w, n))) > .12 * math.dist([0] * 3, w) * math.dist([0] * 3, n):
                break
        out.append(w)
    return out


def materials():
    return [
        ("diffuse", [A("m", "material::diffuse", {"Kd": [.8, .5, .2]})], 1, []),
        ("textured", [A("t", "texture::constant", {"color": [.3, .6, .9]}), A("m", "material::diffuse", {"mapKd": L("t")})], 1, []),
        ("glossy", [A("m", "material::glossy", {"Ks": [.9, .6, .3], "ax": .3, "ay": .3})], 1, []),
        ("aniso", [A("m", "material::glossy", {"Ks": [.7, .7, .2], "ax": .25, "ay": .6})], 1, []),
        ("mirror", [A("m", "material::mirror", {})], 1, []),
        ("mask", [A("m", "material::mask", {})], 1, []),
        ("glass", [A("m", "material::glass", {"Ni": 1.5})], 2, []),
        ("dense", [A("m", "material::glass", {"Ni": 2.5})], 2, []),
        ("proxy", [A("b", "material::glossy", {"Ks": [.5, .5, .5], "ax": .4, "ay": .2}), A("m", "material::proxy", {"ref": L("b")})], 1, []),
        ("rr", [A("d", "material::diffuse", {"Kd": [.8, .5, .2]}), A("g", "material::glossy", {"Ks": [.9, .9, .9], "ax": .4, "ay": .4}), A("s", "material::mirror", {}),
                A("m", "material::constant_weight_mixture_rr", [{"material": L("d"), "weight": .5}, {"material": L("g"), "weight": .125}, {"material": L("s"), "weight": .375}])], 3, [4, 1, 3]),
        ("marg", [A("d", "material::diffuse", {"Kd": [.8, .5, .2]}), A("g", "material::glossy", {"Ks": [.9, .9, .9], "ax": .4, "ay": .4}), A("s", "material::mirror", {}), A("k", "material::mask", {}),
                  A("m", "material::constant_weight_mixture_marginalized", [{"material": L("s"), "weight": .25}, {"material": L("d"), "weight": .375}, {"material": L("k"), "weight": .125}, {"material": L("g"), "weight": .25}])], 3, [5, 2, 1]),
        ("pmarg", [A("d", "material::diffuse", {"Kd": [.4, .5, .6]}), A("s", "material::mirror", {}),
                   A("x", "material::constant_weight_mixture_marginalized", [{"material": L("s"), "weight": .5}, {"material": L("d"), "weight": .5}]), A("m", "material::proxy", {"ref": L("x")})], 2, [1, 1]),
        ("obj", [A("m", "material::mixture_wavefrontobj", {"Kd": [.6, .3, .2], "mapKd": "", "Ks": [.3, .5, .1], "ax": .3, "ay": .5, "no_alpha_mask": False})], 2, [1, 0]),
        ("objtex", [A("t", "texture::vtalpha", {"color": [.5, .4, .7], "alpha": .625}),
                    A("m", "material::mixture_wavefrontobj", {"Kd": [.1, .1, .1], "mapKd": L("t"), "Ks": [.3, .4, .2], "ax": .6, "ay": .4, "no_alpha_mask": False})], 2, [5, 3]),
        ("objplain", [A("t", "texture::vtalpha", {"color": [.5, .4, .7], "alpha": .625}),
                      A("m", "material::mixture_wavefrontobj", {"Kd": [.1, .1, .1], "mapKd": L("t"), "Ks": [0, 0, 0], "ax": .6, "ay": .4, "no_alpha_mask": True})], 2, [1, 0]),
    ]


def more_materials(rng, n):
    """materials with other parameters"""
    out = []
    tenth = lambda lo=0, hi=10: rng.randint(lo, hi) / 10
    col = lambda lo=0: [tenth(lo) for _ in range(3)]
    rough = lambda: rng.choice([.2, .25, .3, .45, .7, 1.])
    for i in range(n):
        k = ["diffuse", "glossy", "glass", "rr", "marg", "obj"][i % 6]
        if k == "diffuse":
            c = col()
            out.append((k, [A("m", "material::diffuse", {"Kd": c})], 1, [], c))
        elif k == "glossy":
            out.append((k, [A("m", "material::glossy", {"Ks": col(1), "ax": rough(), "ay": rough()})], 1, [], None))
        elif k == "glass":
            out.append((k, [A("m", "material::glass", {"Ni": rng.choice([1.05, 1.2, 1.33, 1.8, 2., 3.])})], 2, [], None))
        elif k == "obj":
            al = rng.choice([1, 3, 6, 7])
            out.append((k, [A("t", "texture::vtalpha", {"color": [x / 2 for x in col(1)], "alpha": al / 8}),
                            A("m", "material::mixture_wavefrontobj", {"Kd": col(), "mapKd": L("t"), "Ks": [x * .4 for x in col()], "ax": rough(), "ay": rough(), "no_alpha_mask": False})], 2, [al, 8 - al], None))
        else:
            m = rng.randint(1, 5)
            ws = [rng.randint(0, 5) for _ in range(m)]
            if not sum(ws):
                ws[rng.randrange(m)] = 1
            kinds = [rng.choice(["diffuse", "glossy", "mirror", "mask"]) for _ in range(m)]
            if rng.random() < .4:
                kinds = [x if x != "glossy" else "diffuse" for x in kinds]
            assets, tot, ent = [], [0, 0, 0], []
            for j, (w, x) in enumerate(zip(ws, kinds)):
                c = col(1)
                if x == "glossy":
                    assets.append(A("e%d" % j, "material::glossy", {"Ks": c, "ax": rough(), "ay": rough()}))
                    tot = None
                else:
                    assets.append(A("e%d" % j, "material::" + x, {"Kd": c} if x == "diffuse" else {}))
                    if tot is not None:
                        tot = [a + w / 32 * (b if x == "diffuse" else 1) for a, b in zip(tot, c)]
                ent.append({"material": L("e%d" % j), "weight": w / 32})
            order = list(range(m))
            if k == "rr":
                w = ws
                comps = m
            else:
                spec = [j for j in order if kinds[j] in ("mirror", "mask")]
                w = [sum(ws[j] for j in order if j not in spec)] + [ws[j] for j in spec]
                comps = len(w)
            out.append((k, assets + [A("m", "material::constant_weight_mixture_" + ("rr" if k == "rr" else "marginalized"), ent)], comps, w, tot))
    return out


def mat_session(assets, ops):
    return {"assets": [A("q", "mesh::raw", QUAD)] + assets, "prims": [P("s", mesh="q", material="m")], "ops": ops}


def surface_sessions(rng, thorough=False):
    out = []
    for name, assets, comps, w in materials() + [x[:4] for x in more_materials(rng, 120 if thorough else 50)]:
        geoms = GEOMS if thorough else [GEOMS[0]] + rng.sample(GEOMS[1:], 2)
        for g in geoms:
            ops = []
            for wi in wis(g, rng) if thorough else rng.sample(wis(g, rng), 3):
                for c in range(comps):
                    if w and not w[c]:
                        continue
                    if name in ("glass", "dense") and c == 1:
                        # refraction is asked for only where there is one
                        d = sum(a * b for a, b in zip(wi, g["n"])) / math.dist([0] * 3, wi) / math.dist([0] * 3, g["n"])
                        if d < 0:
                            continue
                    ops.append({"op": "Dir", "at": "surface", "prim": "s", "geom": g, "wi": wi, "comp": c, "dir": rng.choice(["EL", "LE"]),
                                "n": 50000, "m": 80 if thorough else 48, "off": rng.random()})
            out.append(mat_session(assets, ops))
    return out


def component_sessions(rng):
    out = []
    for name, assets, comps, w in materials() + [x[:4] for x in more_materials(rng, 24)]:
        ops = []
        for g in GEOMS:
            for wi in wis(g, rng):
                ops.append({"op": "Component", "at": "surface", "prim": "s", "geom": g, "wi": wi, "k": 2000, "comps": comps, "w": w})
        out.append(mat_session(assets, ops))
    return out


def selection_sessions(rng):
    base = [A("q", "mesh::raw", QUAD), A("mat", "material::diffuse", {"Kd": [1, 1, 1]}), A("aq", "light::area", {"Ke": [3, 2, 1], "mesh": L("q")}),
            A("pt", "light::point", {"Le": [4, 3, 2], "position": [1, 2, -4]}), A("dl", "light::directional", {"Le": [2, 1, 3], "direction": [1, -2, .5]})]
    out = []
    for n in range(1, 13):
        prims = []
        for i in range(n):
            k = rng.choice(["aq", "pt", "dl"])
            prims.append(P("x%d" % i, MS[i % len(MS)] if k == "aq" else None, **(dict(mesh="q", material="mat", light="aq") if k == "aq" else dict(light=k))))
        out.append({"assets": base, "prims": prims, "ops": [{"op": "SelectLight", "k": 1000 * n}]})
    return out


MS = [None,
      [[1, 0, 0, 2], [0, 1, 0, 3], [0, 0, 1, 4]],
      [[0, -1, 0, 0], [1, 0, 0, 0], [0, 0, 1, 2]],
      [[2, 0, 0, 0], [0, 2, 0, 0], [0, 0, 2, 1]],
      [[1, 0, 0, 0], [0, 3, 0, 0], [0, 0, 2, 1]],
      [[1, 0, 0, 0], [0, -1, 0, 0], [0, 0, 1, 3]],
      [[1, .5, 0, 0], [0, 1, 0, .2], [.3, 0, 1, 2]],
      [[.2, 0, 0, 0], [0, 0, -.2, 0], [0, .2, 0, 1]]]


def light_sessions(rng, thorough=False):
    """Endpoints: area lights under transforms, point, directional and environment lights, the camera."""
    out = []
    base = [A("q", "mesh::raw", QUAD), A("r", "mesh::raw", ROOF), A("mat", "material::diffuse", {"Kd": [1, 1, 1]}),
            A("aq", "light::area", {"Ke": [3, 2, 1], "mesh": L("q")}), A("ar", "light::area", {"Ke": [1, 5, 2], "mesh": L("r")}),
            A("pt", "light::point", {"Le": [4, 3, 2], "position": [1, 2, -4]}), A("dl", "light::directional", {"Le": [2, 1, 3], "direction": [1, -2, .5]}),
            A("ec", "light::envconst", {"Le": [.5, 1, 2]}), A("cam", "camera::pinhole", CAM)]
    pts = [{"p": [.3, -.2, -6], "n": [0, 0, 1]}, {"p": [5, 4, 9], "n": [-1, 0, -1]}, {"p": [.5, .2, 7]}, {"p": [0, 0, -3], "n": [.2, .9, .3]}]
    for M in MS:
        for k in ("q", "r"):
            if not thorough and k == "q" and MS.index(M) % 2:
                continue
            ops = [{"op": "Pos", "dir": "LE"}]
            for g in (pts if thorough else rng.sample(pts, 2)):
                ops.append({"op": "Direct", "form": "surface", "dir": "LE", "at": "surface" if "n" in g else "medium", "prim": "l", "geom": g, "trace": True})
            if k == "q":
                ops.append({"op": "Primary", "form": "surface", "dir": "LE", "axis": [0, 0, 1], "m": 16})
            out.append({"assets": base, "prims": [P("l", M, mesh=k, material="mat", light="a" + k)], "ops": ops})
    # several lights of different kinds
    multi = [P("l1", MS[3], mesh="r", material="mat", light="ar"), P("l2", MS[2], mesh="q", material="mat", light="aq"), P("l3", light="pt")]
    out.append({"assets": base, "prims": multi, "ops": [{"op": "Pos", "dir": "LE"}, {"op": "SelectLight", "k": 600}, {"op": "Direct", "form": "any", "dir": "LE", "at": "surface", "prim": "l1", "geom": pts[0], "n": 2000}][:2]})
    two = multi[:2]
    out.append({"assets": base, "prims": two, "ops": [{"op": "Pos", "dir": "LE"}, {"op": "SelectLight", "k": 600}] +
                [{"op": "Direct", "form": "surface", "dir": "LE", "at": "surface", "prim": "l1", "geom": g, "trace": False} for g in (pts[0], pts[3])]})
    for n in (1, 2, 3, 5, 7):
        out.append({"assets": base, "prims": [P("x%d" % i, light="pt") for i in range(n)], "ops": [{"op": "SelectLight", "k": 840}]})
    # the point light
    g1 = pts[0]
    out.append({"assets": base, "prims": [P("l", light="pt")], "ops": [{"op": "Pos", "dir": "LE"}, {"op": "Primary", "form": "point", "dir": "LE"}] + [
        {"op": "Direct", "form": "point", "dir": "LE", "at": "surface" if "n" in g else "medium", "prim": "l", "geom": g, "origin": [1, 2, -4], "value": [4, 3, 2], "n": 1000} for g in pts] + [
        {"op": "Dir", "at": "light", "prim": "l", "geom": {"p": [1, 2, -4]}, "wi": [0, 0, 1]}]})
    # an area light's directions
    out.append({"assets": base, "prims": [P("l", mesh="q", material="mat", light="aq")], "ops": [{"op": "Dir", "at": "light", "prim": "l", "geom": g, "wi": [0, 0, 1], "dir": "LE"} for g in GEOMS[:3]]})
    # infinitely distant lights around a scene
    box = [P("o", mesh="q", material="mat"), P("o2", MS[4], mesh="r", material="mat")]
    bound = {"bmin": [-1, -1, 0], "bmax": [2, 3, 7]}
    out.append({"assets": base, "prims": box + [P("l", light="dl")], "ops": [dict(op="Primary", form="delta", dir="LE", **bound)] + [
        {"op": "Direct", "form": "delta", "dir": "LE", "at": "surface" if "n" in g else "medium", "prim": "l", "geom": g, "n": 1000} for g in pts]})
    out.append({"assets": base, "prims": box + [P("l", light="ec")], "ops": [dict(op="Primary", form="infinite", dir="LE", **bound)] + [
        {"op": "Direct", "form": "infinite", "dir": "LE", "at": "surface" if "n" in g else "medium", "prim": "l", "geom": g, "trace": True, "axis": g.get("n", [0, 0, 1])} for g in pts]})
    # environment maps, rotated and scaled
    for rot, scale, (w, h) in ((0, 1, (8, 4)), (90, 2, (4, 3)), (37, 1, (5, 2))) + (((200, .5, (16, 8)), (0, 1, (3, 3)), (-45, 1, (1, 5))) if thorough else ()):
        px = [[rng.choice([40, 90, 160, 220, 255]) for _ in range(3)] for _ in range(w * h)]
        if w * h > 8:
            px[w * h // 2] = [0, 0, 0]
        if h > 2:   # a black row
            y = rng.randrange(h)
            px[y * w:y * w + w] = [[0, 0, 0]] * w
        assets = base + [A("em", "light::env", {"path": "env.ppm", "rot": rot, "scale": scale, "flip": False})]
        out.append({"files": [ppm(w, h, px)], "assets": assets, "prims": box + [P("l", light="em")], "ops": [dict(op="Primary", form="infinite", dir="LE", m=40, **bound)] + [
            {"op": "Direct", "form": "infinite", "dir": "LE", "at": "surface" if "n" in g else "medium", "prim": "l", "geom": g, "trace": True, "axis": [0, 1, 0], "m": 60} for g in (pts if thorough else pts[1:3])]})
    # the camera
    for cam in ({}, {"vfov": 90, "aspect": 1}, {"position": [3, 1, -2], "center": [0, 1, 4], "up": [0, 0, 1], "vfov": 40, "aspect": .5}):
        c = dict(CAM, **cam)
        ax = [b - a for a, b in zip(c["position"], c["center"])]
        tf = math.tan(math.radians(c["vfov"] / 2))
        z0 = 1 / math.sqrt(1 + tf * tf * (1 + c["aspect"] ** 2)) - 1e-6
        ln = math.dist([0] * 3, ax)
        front = [c["position"][i] + 3 * ax[i] / ln for i in range(3)]
        back = [c["position"][i] - 3 * ax[i] / ln for i in range(3)]
        cops = [{"op": "Pos", "dir": "EL"}, {"op": "Primary", "form": "camera", "dir": "EL", "axis": ax, "z0": z0, "m": 60}, {"op": "Dir", "at": "camera", "prim": "c", "geom": {"p": c["position"]}, "wi": [0, 0, 1], "axis": ax, "z0": z0, "m": 60}]
        out.append({"assets": [A("cam", "camera::pinhole", c)], "prims": [P("c", camera="cam")], "ops": cops + [
            {"op": "DirectCam", "at": "surface", "prim": "c", "geom": {"p": front, "n": [.1, .2, .9]}}, {"op": "DirectCam", "at": "medium", "prim": "c", "geom": {"p": front}}, {"op": "DirectCam", "at": "medium", "prim": "c", "geom": {"p": back}},
            {"op": "DirectCam", "at": "medium", "prim": "c", "geom": {"p": [front[0] + 9, front[1] + 7, front[2] + 8]}}]})
    out.append({"assets": base, "prims": [P("l", mesh="q", material="mat")], "ops": [{"op": "Measures", "off": rng.random()} for _ in range(4)]})
    # phase functions
    for ph in ([A("ph", "phase::isotropic", {})],) + tuple([A("ph", "phase::hg", {"g": g})] for g in ((0., .5, -.7, .85) if not thorough else (0., 1e-5, .2, .5, .7, .85, -.1, -.5, -.7, -.85))):
        assets = ph + [A("med", "medium::homogeneous", {"density": 1, "albedo": [.5, .6, .7], "phase": L("ph")})]
        out.append({"assets": assets, "prims": [P("m", medium="med")], "ops": [{"op": "Dir", "at": "medium", "prim": "m", "geom": {"p": [1, 2, 3]}, "wi": wi, "axis": [-x for x in wi] if i else [0, 0, 1], "m": 40}
                                                                            for i, wi in enumerate(([0, 0, 1], [1, -2, .5], [0, 0, -1]))]})
    return out


# ---------------------------------------------------------------- C18
def dist_sessions(rng, ws, thorough=False):
    ops = [{"op": "Dist", "w": list(w), "k": sum(w) * 3} for w in ws]
    for _ in range(2000 if thorough else 240):
        n = rng.randint(1, 14)
        w = [rng.choice([0, 0, 1, 1, 2, 5, 9]) for _ in range(n)]
        if sum(w):
            ops.append({"op": "Dist", "w": w, "k": sum(w) * 4, "scale": rng.choice([1, .1, 1e-6, 1e6, 1 / 3])})
    for _ in range(1000 if thorough else 160):
        c, r = rng.randint(1, 4), rng.randint(1, 4)
        w = [rng.choice([0, 1, 1, 2, 3]) for _ in range(c * r)]
        if rng.random() < .3:
            y = rng.randrange(r)
            w[y * c:y * c + c] = [0] * c
        if sum(w):
            ops.append({"op": "Dist2", "cols": c, "rows": r, "w": w, "k": 60, "reps": rng.choice([1, 1, 2])})
    rng.shuffle(ops)
    return [{"ops": ops[i:i + 25]} for i in range(0, len(ops), 25)]


# ---------------------------------------------------------------- C22
def law_sessions(rng, thorough=False):
    out = []
    for name, assets, comps, w, tot in [x + (None,) for x in materials()] + more_materials(rng, 120 if thorough else 70):
        ops = []
        if name not in ("mirror", "mask", "glass", "dense"):
            for g in GEOMS:
                for c in range(comps):
                    if c == 0 and (not w or w[0]) and name not in ("rr",):
                        ops.append({"op": "Law", "law": "adjoint", "at": "surface", "prim": "s", "geom": g, "wi": g["n"], "comp": c})
        for g in GEOMS[:3]:
            for wi in wis(g, rng) + wis(g, rng) + (wis(g, rng) * 1 if thorough else []):
                at = {"at": "surface", "prim": "s", "geom": g, "wi": wi}
                if name == "mirror":
                    ops.append(dict(at, op="Law", law="reflect", dir=rng.choice(["EL", "LE"])))
                if name == "mask":
                    ops.append(dict(at, op="Law", law="pass", dir=rng.choice(["EL", "LE"])))
                if name in ("glass", "dense"):
                    ni = assets[0]["prop"]["Ni"]
                    ops.append(dict(at, op="Law", law="reflect", comp=0, ni=ni, dir=rng.choice(["EL", "LE"])))
                    for d in ("EL", "LE"):
                        ops.append(dict(at, op="Law", law="refract", comp=1, ni=ni, dir=d))
                if name not in ("mirror", "mask", "glass", "dense") and (name != "rr" or assets[0]["impl"] in ("material::diffuse", "material::glossy")) and (not w or w[0]):
                    ops.append(dict(at, op="Law", law="reciprocity", comp=0))
                e = dict(at, op="Law", law="albedo", comps=comps)
                if name in ("diffuse", "textured"):
                    kd = [3000, 6000, 9000] if name == "textured" else [int(round(x * 10000)) for x in assets[0]["prop"]["Kd"]]
                    e.update(expect=kd, refls=kd)
                elif tot:
                    e.update(expect=[int(round(x * 10000)) for x in tot])
                if name in ("mirror", "mask", "glass", "dense"):
                    e.update(expect=[10000] * 3)
                ops.append(e)
        out.append(mat_session(assets, ops))
    return out


# ---------------------------------------------------------------- C23
def camera_sessions(rng, orientations, thorough=False):
    out = []
    axes = [[1, 0, 0], [0, 1, 0], [0, 0, 1], [-1, 0, 0], [0, -1, 0], [0, 0, -1]]
    combos = [(b["view"], b["up"], True) for b in orientations]
    for _ in range(200 if thorough else 60):
        v = [rng.randint(-2, 2) for _ in range(3)]
        u = rng.choice(axes + [[1, 1, 0], [0, 1, 2]])
        c = [v[1] * u[2] - v[2] * u[1], v[2] * u[0] - v[0] * u[2], v[0] * u[1] - v[1] * u[0]]
        if any(c):
            combos.append((v, u, False))
    for v, u, axis in combos:
        pos = [rng.randint(-3, 3) for _ in range(3)]
        vfov = rng.choice([30, 60, 90, 120])
        asp = rng.choice([1, 1.5, .5, 2])
        tf = math.tan(math.radians(vfov / 2))
        prop = {"position": pos, "center": [a + b for a, b in zip(pos, v)], "up": u, "vfov": vfov, "aspect": asp}
        op = {"op": "Camera", "position": pos, "view": v, "up": u, "axis": axis, "aspect": asp, "tf": tf, "k": 8}
        sess = [prop]
        if axis:
            # the same camera given by its matrix: columns are left, up, view and position
            r = [v[1] * u[2] - v[2] * u[1], v[2] * u[0] - v[0] * u[2], v[0] * u[1] - v[1] * u[0]]
            cols = [[-x for x in r] + [0], u + [0], v + [0], pos + [1]]
            sess.append({"matrix": [x for c in cols for x in c], "vfov": vfov, "aspect": asp})
        for p in sess:
            if rng.random() < .4:   # the aspect ratio is set afterwards
                p, op = dict(p, aspect=rng.choice([.3, 1, 3])), dict(op, reset=True)
            out.append({"assets": [A("cam", "camera::pinhole", p)], "prims": [P("c", camera="cam")], "ops": [op]})
    return out


# ---------------------------------------------------------------- C24
def medium_sessions(rng, thorough=False):
    out = []
    ph = [A("ph", "phase::isotropic", {})]
    n = 200000

    def sess(assets, o, d, tau_at, tmax, albedo, vols=()):
        """tau_at(t): optical depth from the origin in eighths"""
        ts = [t for t in (1, 2, 3, 4, 6, 8, 12) if t < tmax]
        segs = [[0, t] for t in ts] + [[a, b] for a, b in ((1, 2), (2, 5), (1, 8), (3, 12)) if b <= tmax]
        op = {"op": "Medium", "o": o, "d": d, "ts": ts, "tau": [tau_at(t) for t in ts], "segs": segs,
              "segtau": [tau_at(b) - tau_at(a) for a, b in segs], "tmax": tmax, "tauend": min(1000, tau_at(tmax)), "albedo": [int(round(x * 10000)) for x in albedo], "n": n}
        return {"assets": ph + assets, "prims": [P("m", medium="med")], "ops": [op]}
    clampr = lambda t, a, b: max(0, min(t, b) - a)
    for den in (1, 2, 4):
        alb = [.5, .25, .75]
        # unbounded
        out.append(sess([A("med", "medium::homogeneous", {"density": den / 8, "albedo": alb, "phase": L("ph")})], [1, 2, 3], rng.choice([[1, 0, 0], [0, -1, 0], [0, 0, 1]]), lambda t: t * den, 8, alb))
        for o, d, a, b in (([-2, 0, 0], [1, 0, 0], 1, 5), ([3, 0, 0], [-1, 0, 0], 0, 4), ([0, 0, 0], [0, 1, 0], 0, 1), ([0, -3, 1], [0, 1, 0], 2, 4), ([0, 5, 0], [1, 0, 0], 0, 0), ([-5, 0, 0], [-1, 0, 0], 0, 0)):
            prop = {"density": den / 8, "albedo": alb, "phase": L("ph"), "bound_min": [-1, -1, -1], "bound_max": [3, 1, 1]}
            out.append(sess([A("med", "medium::homogeneous", prop)], o, d, lambda t, a=a, b=b: clampr(t, a, b) * den, rng.choice([2, 8, 12]) if b else 8, alb))
            vol = [A("den", "volume::constant", {"scalar": den / 8, "bound_min": [-1, -1, -1], "bound_max": [3, 1, 1]}), A("alb", "volume::constant", {"color": alb})]
            out.append(sess(vol + [A("med", "medium::heterogeneous", {"volume_density": L("den"), "volume_albedo": L("alb"), "phase": L("ph")})], o, d,
                            lambda t, a=a, b=b: clampr(t, a, b) * den, rng.choice([2, 8, 12]) if b else 8, alb))
        # a sphere of radius 2 around (1,0,0), seen through its center
        sph = [A("den", "volume::sphere", {"scalar": den / 8, "pos": [1, 0, 0], "radius": 2}), A("alb", "volume::constant", {"color": alb})]
        het = A("med", "medium::heterogeneous", {"volume_density": L("den"), "volume_albedo": L("alb"), "phase": L("ph")})
        out.append(sess(sph + [het], [-3, 0, 0], [1, 0, 0], lambda t: clampr(t, 2, 6) * den, 8, alb))
        out.append(sess(sph + [het], [1, 0, 0], [0, 0, -1], lambda t: clampr(t, 0, 2) * den, 12, alb))
        # checker: cells of edge 1 in x, starting with a dense one
        chk = [A("den", "volume::checker", {"bound_min": [0, 0, 0], "bound_max": [5, 5, 5]}), A("alb", "volume::constant", {"color": alb})]
        out.append(sess(chk + [het], [-1, .5, 2.5], [1, 0, 0], lambda t: 8 * ((clampr(t, 1, 2)) + clampr(t, 3, 4) + clampr(t, 5, 6)), 12, alb))
        out.append(sess(chk + [het], [.5, 1.5, -1], [0, 0, 1], lambda t: 0, 12, alb))
        # two overlapping constant volumes
        mul = [A("d1", "volume::constant", {"scalar": den / 8, "bound_min": [0, -1, -1], "bound_max": [4, 1, 1]}), A("d2", "volume::constant", {"scalar": 2 / 8, "bound_min": [2, -1, -1], "bound_max": [6, 1, 1]}),
               A("a1", "volume::constant", {"color": alb}), A("den", "volume::multi", {"volumes_den": [L("d1"), L("d2")], "volumes_alb": [L("a1"), L("a1")]})]
        het2 = A("med", "medium::heterogeneous", {"volume_density": L("den"), "volume_albedo": L("den"), "phase": L("ph")})
        out.append(sess(mul + [het2], [-1, 0, 0], [1, 0, 0], lambda t: clampr(t, 1, 5) * den + clampr(t, 3, 7) * 2, 12, alb))
    # flights through scenes with surfaces and an environment
    AT = lambda c: [[0, 0, 1, c], [1, 0, 0, 0], [0, 1, 0, 0]]
    base = [A("q", "mesh::raw", QUAD), A("mat", "material::diffuse", {"Kd": [1, 1, 1]}), A("ec", "light::envconst", {"Le": [1, 1, 1]}), A("ph", "phase::isotropic", {})]
    alb = [.5, .25, .75]
    far = 1000
    for den in (1, 3):
        hom = {"density": den / 8, "albedo": alb, "phase": L("ph")}
        media = [("none", [], lambda a, b: 0, lambda t: 0),
                 ("hom", [A("med", "medium::homogeneous", hom)], None, lambda t: min(far, t * den)),
                 ("box", [A("med", "medium::homogeneous", dict(hom, bound_min=[-1, -1, -1], bound_max=[3, 1, 1]))], None, lambda t: clampr(t, 1, 5) * den),
                 ("het", [A("den", "volume::sphere", {"scalar": den / 8, "pos": [1, 0, 0], "radius": 2}), A("alb", "volume::constant", {"color": alb}),
                          A("med", "medium::heterogeneous", {"volume_density": L("den"), "volume_albedo": L("alb"), "phase": L("ph")})], None, lambda t: clampr(t, 1, 5) * den)]
        for name, ma, _, tau in media:
            for surf in ([], [4], [7, 4], [9]):
                env = rng.random() < .5
                prims = [P("s%d" % i, AT(c - 2), mesh="q", material="mat") for i, c in enumerate(surf)]
                if env:
                    prims.insert(rng.randint(0, len(prims)), P("e", light="ec"))
                if ma:
                    prims.insert(rng.randint(0, len(prims)), P("m", medium="med"))
                D = min(surf) if surf else far
                end = "surface" if surf else "infinite" if env else "none"
                ts = [t for t in (1, 2, 3, 5, 8) if t < D]
                if not prims:
                    continue
                sp = {"at": "medium", "prim": prims[0]["name"], "geom": {"p": [-2, 0, 0]}}
                if surf and rng.random() < .5:
                    sp = {"at": "surface", "prim": "s0", "geom": {"p": [-2, 0, 0], "n": [1, 0, 0]}}
                ops = [dict(sp, op="Flight", d=[1, 0, 0], ts=ts, tau=[tau(t) for t in ts], end=end, dist=D, tauend=tau(D), albedo=[int(x * 10000) for x in alb], n=n)]
                for t in (1, 3, 6, 10):
                    if t not in surf:
                        ops.append({"op": "Transmit", "from": sp, "to": {"at": "medium", "prim": prims[0]["name"], "geom": {"p": [t - 2, 0, 0]}}, "blocked": any(c < t for c in surf), "tau": tau(t), "n": 200000})
                for c in surf:
                    ops.append({"op": "Transmit", "from": sp, "to": {"at": "surface", "prim": "s0", "geom": {"p": [c - 2, 0, 0], "n": [-1, 0, 0]}}, "blocked": any(x < c for x in surf), "tau": tau(c), "n": 200000})
                if env:
                    ops.append({"op": "Transmit", "from": sp, "wo": [-1, 0, 0], "blocked": bool(surf), "tau": tau(far), "n": 200000})
                    ops.append({"op": "Transmit", "from": sp, "wo": [1, 0, 0], "blocked": False, "tau": far if name == "hom" else 0, "n": 200000})
                out.append({"assets": base + ma, "prims": prims, "ops": ops})
    # the fields themselves
    pts = [[rng.randint(-3, 6) for _ in range(3)] for _ in range(60)]
    fields = [({"scalar": 1.5, "bound_min": [0, 0, 0], "bound_max": [1, 1, 1]}, "constant", {"k": "constant", "s": 1500, "lo": [0, 0, 0], "hi": [2, 2, 2], "col": [100, 200, 300]}),
              ({"scalar": 2.5, "pos": [1, 0, 2], "radius": 2.9999}, "sphere", {"k": "sphere", "s": 2500, "c": [1, 0, 2], "r": 3, "lo": [-8, -10, -6], "hi": [12, 10, 14], "col": [900, 0, 500]}),
              ({"scalar": 3, "pos": [0, 1, 1], "sigma": [2, 2, 2]}, "gaussian", {"k": "gaussian", "q": 1, "s": 3000, "c": [0, 1, 1], "lo": [-30, -28, -28], "hi": [30, 32, 32], "col": [300, 700, 100]}),
              ({"bound_min": [-.5, -.5, -.5], "bound_max": [4.5, 4.5, 4.5]}, "checker", {"k": "checker", "lo": [-1, -1, -1], "hi": [9, 9, 9], "col": [250, 500, 750]}),
              ({"bound_min": [-3.5, -3.5, -3.5], "bound_max": [6.5, 6.5, 6.5]}, "checker", {"k": "checker", "lo": [-7, -7, -7], "hi": [13, 13, 13], "col": [100, 100, 900]})]
    # wide and narrow: points at multiples of the unit q divides the squared distance of
    for sg, q, st in ((8, 16, 4), (16, 64, 8)):
        ps = [[1 + st * a, st * b, 2 + st * d] for a in range(-6, 7) for b in (-3, -1, 0, 2, 4) for d in (-5, -2, 0, 1, 3)]
        out.append({"assets": [A("v", "volume::gaussian", {"scalar": 2, "pos": [1, 0, 2], "sigma": [sg] * 3})], "prims": [],
                    "ops": [{"op": "Volume", "vol": "v", "pts": rng.sample(ps, 100), "field": {"k": "gaussian", "q": q, "s": 2000, "c": [1, 0, 2], "lo": [-200] * 3, "hi": [200] * 3, "col": [300, 700, 100]}}]})
    for i, (prop, k, f) in enumerate(fields):
        ps = [p for p in pts if k != "checker" or all(f["lo"][c] <= 2 * p[c] <= f["hi"][c] for c in range(3))] + [[1, 1, 1], [2, 3, 1], [0, 4, 0]]
        out.append({"assets": [A("v", "volume::" + k, prop)], "prims": [], "ops": [{"op": "Volume", "vol": "v", "pts": ps, "field": f}]})
    for _ in range(80 if thorough else 24):
        parts = [rng.choice(fields) for _ in range(rng.randint(1, 4))]
        assets = []
        for j, (prop, k, f) in enumerate(parts):
            assets += [A("d%d" % j, "volume::" + k, prop), A("a%d" % j, "volume::constant", {"color": [x / 1000 for x in f["col"]]})]
        assets.append(A("v", "volume::multi", {"volumes_den": [L("d%d" % j) for j in range(len(parts))], "volumes_alb": [L("a%d" % j) for j in range(len(parts))]}))
        out.append({"assets": assets, "prims": [], "ops": [{"op": "Volume", "vol": "v", "pts": pts, "color": True, "field": {"k": "multi", "parts": [f for _, _, f in parts]}}]})
    return out
TRACE = "SamplingTrace"


def corrupt(t):
    """one observation of a trace changed"""
    for e in t["ev"]:
        if e["op"] == "Draw" and e["q"] and e["q"][0][2] > 1000000:
            e["q"][0][2] += e["q"][0][2] // 100
            return t
        if e["op"] == "Dist":
            e["at"][-1] += 1
            return t
        if e["op"] == "Select" and e["n"] > 1:
            e["p"][0] += 20000
            return t
        if e["op"] == "Law":
            e["wo"] = [-x + 30 for x in e["wo"]]
            return t
        if e["op"] == "Albedo":
            e["total"] = [12000] * 3
            return t
        if e["op"] == "Camera":
            e["q"][3]["back"][1] += 10
            return t
        if e["op"] == "Medium" and e["cnt"]:
            e["cnt"][0] += e["n"] // 20
            return t
        if e["op"] == "Volume":
            e["q"][0]["v"] += 5
            return t
    return None
