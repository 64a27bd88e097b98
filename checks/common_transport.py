"""Scenes for images by all renderers, and the images that are known."""
import json, math
from common_sampling import A, L, P, QUAD, ppm

TRACE = "TransportTrace"


def tri_mesh(quads):
    """quads: (corners in order, normal)"""
    ps, ns, fp, fn = [], [], [], []
    for cs, n in quads:
        b = len(ps) // 3
        for p in cs:
            ps += p
        ns += n
        k = len(ns) // 3 - 1
        fp += [b, b + 1, b + 2, b, b + 2, b + 3]
        fn += [k] * 6
    return {"ps": ps, "ns": ns, "ts": [0, 0], "fs": {"p": fp, "n": fn, "t": [0] * len(fp)}}


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def box(inward=True, size=1):
    q = []
    for ax in range(3):
        for s in (-1, 1):
            n = [0, 0, 0]
            n[ax] = -s if inward else s
            u = [0, 0, 0]
            u[(ax + 1) % 3] = 1
            v = cross(n, u)
            o = [0, 0, 0]
            o[ax] = s
            q.append(([[size * (o[i] + a * u[i] + d * v[i]) for i in range(3)] for a, d in ((-1, -1), (1, -1), (1, 1), (-1, 1))], n))
    return tri_mesh(q)


def pyramid(tilt):
    """a low pyramid over the unit square whose normals are interpolated: shading and geometric normals differ"""
    ps = [-1, -1, 0, 1, -1, 0, 1, 1, 0, -1, 1, 0, 0, 0, .3]
    ns = []
    for x, y in ((-1, -1), (1, -1), (1, 1), (-1, 1), (0, 0)):
        n = [tilt * x, tilt * y, 1]
        ln = math.dist([0] * 3, n)
        ns += [c / ln for c in n]
    f = [0, 1, 4, 1, 2, 4, 2, 3, 4, 3, 0, 4]
    return {"ps": ps, "ns": ns, "ts": [0, 0], "fs": {"p": f, "n": f, "t": [0] * 12}}


def cam(position, center, up=(0, 0, 1), vfov=45, aspect=1):
    return A("cam", "camera::pinhole", {"position": list(position), "center": list(center), "up": list(up), "vfov": vfov, "aspect": aspect})


def T(x=0, y=0, z=0, s=1, sy=None, sz=None, flip=False):
    """scaled and moved; flip: turned upside down"""
    sy, sz = s if sy is None else sy, s if sz is None else sz
    f = -1 if flip else 1
    return [[s, 0, 0, x], [0, f * sy, 0, y], [0, 0, f * sz, z]]


# ------------------------------------------------------------------ renderers
def pts(modes, primary=("pixel", "image")):
    return [("pt-%s-%s" % (m, p), "pt", {"sampling_mode": m, "primary_ray_sampling_mode": p}) for m in modes for p in primary]


PATH = {k: (k, k, {}) for k in ("pt_naive_path", "pt_nee_path", "lt_nee_path", "bdpt", "bdptopt")}
LT = [("bdpt3", "bdptopt", {}), ("lt", "lt", {})]   # the tracing of light finds no paths of two vertices
VOL = [("volpt_naive", "volpt_naive", {}), ("volpt", "volpt", {})]
# relative number of samples: what needs more for the same error
MORE = {"pt-naive-pixel": 1, "pt-naive-image": 2, "pt-nee-pixel": 2, "pt-nee-image": 4, "pt-mis-pixel": 1, "pt-mis-image": 2, "volpt_naive": 1, "volpt": 2, "lt": 4}


def images(rng, rs, hi, spp, lo=2, w=2, h=2, reps=16, scale=10000):
    """one operation per renderer"""
    out = []
    for who, key, prop in rs:
        n = int(spp * MORE.get(who, 4))
        p = dict(prop, scheduler="sample", spp=n, num_samples=n * w * h, max_verts=hi)
        l = max(3, lo) if who in ("lt", "bdpt3") else lo
        if key in PATH:
            p["min_verts"] = l
        out.append({"op": "Image", "who": who, "key": key, "prop": p, "lo": l, "hi": hi, "w": w, "h": h, "reps": reps, "seed": rng.randrange(1 << 20), "scale": scale})
    return out


ALL = pts(("mis", "naive", "nee")) + [PATH["bdpt"], PATH["bdptopt"], PATH["pt_naive_path"], PATH["pt_nee_path"], PATH["lt_nee_path"]] + VOL
# lights that cannot be hit
POINTLIKE = pts(("mis", "nee")) + [PATH["bdpt"], PATH["bdptopt"], PATH["lt_nee_path"], VOL[1]]
ENV = pts(("mis", "naive", "nee")) + [PATH["bdpt"], PATH["bdptopt"], PATH["pt_naive_path"], PATH["lt_nee_path"]] + VOL
SPECULAR = pts(("mis", "naive", "nee")) + [PATH["bdpt"], PATH["bdptopt"], PATH["pt_naive_path"]] + VOL


# ------------------------------------------------------------------ references by quadrature
def shade(camera, rho, radiance, w, h, sub, blockers=()):
    """image of the floor z = 0 with reflectance rho: radiance(x) is the irradiance at x"""
    c = camera["prop"]
    ww = [a - b for a, b in zip(c["center"], c["position"])]
    ln = math.dist([0] * 3, ww)
    ww = [x / ln for x in ww]
    r = cross(ww, c["up"])
    ln = math.dist([0] * 3, r)
    r = [x / ln for x in r]
    u = cross(r, ww)
    tf = math.tan(math.radians(c["vfov"] / 2))
    img = []
    for py in range(h):
        for px in range(w):
            s = [0, 0, 0]
            for j in range(sub):
                for i in range(sub):
                    x = (2 * (px + (i + .5) / sub) / w - 1) * tf * c["aspect"]
                    y = (2 * (py + (j + .5) / sub) / h - 1) * tf
                    d = [ww[k] + x * r[k] + y * u[k] for k in range(3)]
                    t = -c["position"][2] / d[2]
                    p = [c["position"][k] + t * d[k] for k in range(3)]
                    e = [0] * 3 if any(hit_rect(c["position"], p, b) for b in blockers) else radiance(p)
                    for k in range(3):
                        s[k] += rho[k] / math.pi * e[k] / sub / sub
            img += s
    return img + [sum(img[k::3]) / (w * h) for k in range(3)]


def hit_rect(p, q, b):
    """does the segment p-q cross the horizontal rectangle b = (x0, x1, y0, y1, z)?"""
    if (p[2] - b[4]) * (q[2] - b[4]) >= 0:
        return False
    t = (b[4] - p[2]) / (q[2] - p[2])
    x, y = p[0] + t * (q[0] - p[0]), p[1] + t * (q[1] - p[1])
    return b[0] < x < b[1] and b[2] < y < b[3]


def known_scenes(rng, spp, big=False):
    """(assets, prims, law, ops): scenes whose image is known"""
    out = []
    # furnaces: the last one with so many vertices that walks are ended at random
    cen = cam([.2, -.1, .1], [0, 0, -1], up=[0, 1, 0], vfov=60)
    for rho, le, hi, more in (([500, 250, 750], [1, 2, .5], rng.choice([2, 3, 4]), 1), ([900, 800, 950], [1, .5, .25], 9, .5)):
        assets = [A("b", "mesh::raw", box()), A("m", "material::diffuse", {"Kd": [x / 1000 for x in rho]}), A("l", "light::area", {"Ke": le, "mesh": L("b")}), cen]
        prims = [P("c", camera="cam"), P("w", mesh="b", material="m", light="l")]
        law = {"kind": "furnace", "le": [int(x * 10000) for x in le], "rho": rho}
        rs = [r for r in ALL if hi < 9 or r[0] not in ("pt-nee-image", "pt_nee_path", "lt_nee_path", "pt-naive-image", "bdpt")]
        out.append((assets, prims, law, images(rng, rs + LT, hi, spp * more) + (images(rng, [PATH["bdpt"], PATH["bdptopt"], PATH["pt_naive_path"]], 4, spp, lo=rng.choice([3, 4])) if hi < 9 else images(rng, [PATH["bdpt"]], 7, spp * more))))
    # a furnace of two spheres of influence: a box in a constant environment is never darker than its reflectance says
    assets = [A("q", "mesh::raw", QUAD), A("m", "material::diffuse", {"Kd": [.6, .3, .9]}), A("e", "light::envconst", {"Le": [1, 2, .5]}), cam([0, -4, 5], [0, 0, 0])]
    prims = [P("c", camera="cam"), P("f", T(s=9), mesh="q", material="m"), P("l", light="e")]
    ref = [int(round(x * 10000)) for x in [.6, .6, .45] * 5]
    law = {"kind": "ref", "ref": {"3": ref, "4": ref, "8": ref}}
    out.append((assets, prims, law, images(rng, ENV + LT, 3, spp) + images(rng, [PATH["bdptopt"]] + pts(("mis",)), 8, spp)))
    # a floor under a point, a distant and an area light, with something black in between
    camera = cam([0, -4, 4], [0, 0, 0], vfov=30)
    rho = [.6, .3, .9]
    floor = [A("q", "mesh::raw", QUAD), A("m", "material::diffuse", {"Kd": rho}), A("k", "material::diffuse", {"Kd": [0, 0, 0]}), camera]
    z = 1.5
    bl = (.2, 1.0, -.6, .4, z)
    M = T((bl[0] + bl[1]) / 2, (bl[2] + bl[3]) / 2, z, (bl[1] - bl[0]) / 2, (bl[3] - bl[2]) / 2, 1)
    base = [P("c", camera="cam"), P("f", T(s=20), mesh="q", material="m"), P("k", M, mesh="q", material="k")]
    sub = 100 if big else 60
    lp = [.5 + rng.random() * .2, -1.2, 5]

    def point(p):
        if hit_rect(p, lp, bl):
            return [0] * 3
        d = [a - b for a, b in zip(lp, p)]
        r2 = sum(x * x for x in d)
        return [x * d[2] / r2 ** 1.5 for x in (30, 20, 10)]
    ref = [int(round(x * 10000)) for x in shade(camera, rho, point, 2, 2, sub, [bl])]
    out.append((floor + [A("l", "light::point", {"Le": [30, 20, 10], "position": lp})], base + [P("l", light="l")], {"kind": "ref", "ref": {"3": ref, "5": ref}},
                images(rng, POINTLIKE + LT, rng.choice([3, 5]), spp)))
    dd = [.1, .3 + rng.random() * .2, -1]
    ln = math.dist([0] * 3, dd)

    def distant(p):
        q = [a - 10 * b for a, b in zip(p, dd)]
        return [0] * 3 if hit_rect(p, q, bl) else [x / ln for x in (3, 2, 1)]
    ref = [int(round(x * 10000)) for x in shade(camera, rho, distant, 2, 2, sub, [bl])]
    out.append((floor + [A("l", "light::directional", {"Le": [3, 2, 1], "direction": dd})], base + [P("l", light="l")], {"kind": "ref", "ref": {"3": ref, "5": ref}},
                images(rng, [r for r in POINTLIKE if r[0] != "lt_nee_path"] + LT, rng.choice([3, 5]), spp)))
    cx, cy, cz, sx, sy = rng.uniform(-.5, .5), -1.5, 4, .8, .4

    def area(p, g=12 if big else 8):
        e = 0
        for i in range(g):
            for j in range(g):
                q = [cx + sx * (2 * (i + .5) / g - 1), cy + sy * (2 * (j + .5) / g - 1), cz]
                if hit_rect(p, q, bl):
                    continue
                d = [a - b for a, b in zip(q, p)]
                r2 = sum(x * x for x in d)
                e += d[2] * d[2] / r2 ** 2
        e *= 4 * sx * sy / g / g
        return [x * e for x in (20, 10, 5)]
    ref = [int(round(x * 10000)) for x in shade(camera, rho, area, 2, 2, 40 if big else 24, [bl])]
    out.append((floor + [A("l", "light::area", {"Ke": [20, 10, 5], "mesh": L("q")})], base + [P("l", T(cx, cy, cz, sx, sy, 1, flip=True), mesh="q", material="k", light="l")],
                {"kind": "ref", "ref": {"3": ref, "5": ref}}, images(rng, ALL + LT, rng.choice([3, 5]), spp)))
    return out


# ------------------------------------------------------------------ scenes whose image is unknown but the same for all
def stage(rng, mats, smooth=False):
    """a floor, a wall and a few things on it"""
    assets = [A("q", "mesh::raw", QUAD), A("b", "mesh::raw", box(False)), A("y", "mesh::raw", pyramid(.5)), cam([rng.uniform(-.5, .5), -6, 3], [0, 0, .8], vfov=40), A("k", "material::diffuse", {"Kd": [0, 0, 0]})] + mats
    prims = [P("c", camera="cam"), P("f", T(s=4), mesh="q", material="m0"), P("w", [[4, 0, 0, 0], [0, 0, -1, 2.5], [0, 4, 0, 2]], mesh="q", material="m1"),
             P("b", T(-1.2, 0, .5, .5), mesh="b", material="m1"), P("y", T(1.2, .3, .4, .8, .8, 1), mesh="y" if smooth else "b", material="m2")]
    return assets, prims


def diff(n, rng):
    return A(n, "material::diffuse", {"Kd": [rng.randint(3, 8) / 10 for _ in range(3)]})


def some_material(n, rng, k=None):
    k = k or rng.choice(["diffuse", "glossy", "rr", "marg"])
    if k == "diffuse":
        return [diff(n, rng)]
    gl = {"Ks": [rng.randint(4, 9) / 10 for _ in range(3)], "ax": rng.choice([.4, .6]), "ay": rng.choice([.5, .8])}
    if k == "glossy":
        return [A(n, "material::glossy", gl)]
    return [diff(n + "d", rng), A(n + "g", "material::glossy", gl), A(n, "material::constant_weight_mixture_" + ("rr" if k == "rr" else "marginalized"), [{"material": L(n + "d"), "weight": .5}, {"material": L(n + "g"), "weight": .5}])]


def agreeing_scenes(rng, spp, big=False):
    out = []
    law = {"kind": "agree"}
    area = [A("l", "light::area", {"Ke": [8, 6, 4], "mesh": L("q")}), A("l2", "light::area", {"Ke": [2, 5, 9], "mesh": L("q")})]
    lamp = lambda: P("l", T(rng.uniform(-.5, .5), -.5, 5, .9, .7, 1, flip=True), mesh="q", material="k", light="l")
    lamp2 = lambda: P("l2", [[0, 0, 1.5, -4], [.6, 0, 0, -1], [0, .5, 0, 3]], mesh="q", material="k", light="l2")
    for i in range(3 if big else 1):
        mats = some_material("m0", rng) + some_material("m1", rng) + some_material("m2", rng)
        a, p = stage(rng, mats, smooth=True)
        out.append((a + area, p + [lamp(), lamp2()], law, images(rng, ALL + LT, rng.choice([4, 5]), spp)))
    # densities that depend on which way a path is walked
    gl = lambda n, ax, ay: [A(n, "material::glossy", {"Ks": [rng.randint(5, 9) / 10 for _ in range(3)], "ax": ax, "ay": ay})]
    a, p = stage(rng, gl("m0", .25, .4) + gl("m1", .35, .35) + gl("m2", .6, .3), smooth=True)
    rs = pts(("mis",)) + [PATH["bdpt"], PATH["bdptopt"]] + LT
    out.append((a + area, p + [lamp(), lamp2()], law, images(rng, rs, 5, spp * 2)))
    # surfaces whose interpolated normals are far from the geometric ones, seen and lit from the side
    a = [A("q", "mesh::raw", QUAD), A("y", "mesh::raw", pyramid(rng.choice([.7, 1.0]))), cam([1, -4, 2.5], [0, 0, .3], vfov=35)] + some_material("m0", rng)
    p = [P("c", camera="cam"), P("y", T(s=2.2, sz=1.5), mesh="y", material="m0"), P("l2", [[0, 0, 1.5, -4], [1.2, 0, 0, 1], [0, 1.2, 0, 2]], mesh="q", material="k", light="l2")]
    a.append(A("k", "material::diffuse", {"Kd": [0, 0, 0]}))
    rs = pts(("mis",)) + [PATH["bdpt"], PATH["bdptopt"], PATH["lt_nee_path"]] + LT
    out.append((a + area, p, law, images(rng, rs, rng.choice([3, 4]), spp * 2)))
    # environments
    e = rng.choice([A("e", "light::envconst", {"Le": [1, .8, .6]}), None])
    files = []
    if e is None:
        e = A("e", "light::env", {"path": "env.ppm", "rot": rng.choice([0, 30, 120]), "scale": 2, "flip": False})
        files = [ppm(4, 2, [[rng.choice([60, 150, 220]) for _ in range(3)] for _ in range(8)])]
    a, p = stage(rng, some_material("m0", rng, "diffuse") + some_material("m1", rng) + some_material("m2", rng), smooth=rng.random() < .5)
    out.append((a + [e], p + [P("l", light="e")], law, images(rng, ENV + LT, 4, spp), files))
    # point, distant and area lights together
    a, p = stage(rng, some_material("m0", rng) + some_material("m1", rng, "diffuse") + some_material("m2", rng), smooth=True)
    pl = [A("pl", "light::point", {"Le": [20, 30, 10], "position": [1.5, -2.5, 5]}), A("dl", "light::directional", {"Le": [.5, .8, 1], "direction": [.2, .5, -1]})]
    out.append((a + area + pl, p + [P("pl", light="pl"), lamp()], law, images(rng, POINTLIKE + LT, 4, spp)))
    out.append((a + area + pl, p + [P("dl", light="dl"), lamp()], law, images(rng, [r for r in POINTLIKE if r[0] != "lt_nee_path"] + LT, 4, spp)))
    # mirrors, glass and transparency: not every strategy finds these paths
    spec = [A("m0", "material::mirror", {}), A("m2", "material::glass", {"Ni": 1.5}), diff("m1", rng)]
    a, p = stage(rng, spec)
    out.append((a + area, p + [P("l", T(0, -.5, 4, 1.6, 1.2, 1, flip=True), mesh="q", material="k", light="l")], law, images(rng, SPECULAR, 5, spp)))
    mk = [diff("m0", rng), A("m1", "material::mask", {}), A("x", "material::mirror", {}), A("m2", "material::constant_weight_mixture_marginalized", [{"material": L("m0"), "weight": .5}, {"material": L("x"), "weight": .25}, {"material": L("m1"), "weight": .25}])]
    a, p = stage(rng, mk)
    out.append((a + area, p + [P("l", T(0, -.5, 4, 1.6, 1.2, 1, flip=True), mesh="q", material="k", light="l"), lamp2()], law, images(rng, SPECULAR, 5, spp)))
    return out


def media_scenes(rng, spp, big=False):
    """only the volumetric renderers know media"""
    out = []
    ph = rng.choice([A("ph", "phase::isotropic", {}), A("ph", "phase::hg", {"g": rng.choice([-.4, .5])})])
    hom = [A("med", "medium::homogeneous", {"density": .3, "albedo": [.9, .6, .8], "phase": L("ph"), "bound_min": [-3, -3, 0], "bound_max": [3, 3, 4]})]
    het = [A("den", "volume::sphere", {"scalar": .8, "pos": [0, 0, 1.5], "radius": 1.5}), A("alb", "volume::constant", {"color": [.7, .9, .5]}), A("med", "medium::heterogeneous", {"volume_density": L("den"), "volume_albedo": L("alb"), "phase": L("ph")})]
    for med in (hom, het):
        a, p = stage(rng, some_material("m0", rng, "diffuse") + some_material("m1", rng, "diffuse") + some_material("m2", rng))
        if rng.random() < .5:
            lt, lp = [A("l", "light::area", {"Ke": [8, 6, 4], "mesh": L("q")})], [P("l", T(0, -.5, 4.5, 1.6, 1.2, 1, flip=True), mesh="q", material="k", light="l")]
        else:
            lt, lp = [A("e", "light::envconst", {"Le": [1, .8, .6]})], [P("l", light="e")]
        out.append((a + [ph] + med + lt, p + [P("md", medium="med")] + lp, {"kind": "agree"}, images(rng, VOL, 5, spp * 2)))
    # nothing is lost where nothing is absorbed: an environment is seen through a medium as it is
    med = A("med", "medium::homogeneous", {"density": .5, "albedo": [1, 1, 1], "phase": L("ph"), "bound_min": [-1, -1, -1], "bound_max": [1, 1, 1]})
    ref = [int(10000 * x) for x in [1, .8, .6] * 5]
    out.append(([ph, med, A("e", "light::envconst", {"Le": [1, .8, .6]}), cam([0, -3, .5], [0, 0, 0])], [P("c", camera="cam"), P("md", medium="med"), P("l", light="e")],
                {"kind": "ref", "ref": {"60": ref}}, images(rng, VOL, 60, spp)))
    return out


def judge(c, scenes, what, timeout=400):
    """The images of one scene are rendered in separate processes and compared in one trace."""
    ss, at = [], []
    for k, sc in enumerate(scenes):
        assets, prims, law, ops = sc[:4]
        for o in ops:
            ss.append({"assets": assets, "prims": prims, "law": law, "ops": [o], "files": sc[4] if len(sc) > 4 else []})
            at.append(k)
    cost = lambda i: -ss[i]["ops"][0]["prop"]["num_samples"]
    order = sorted(range(len(ss)), key=cost)
    got = c.drive("transport", [ss[i] for i in order], timeout=timeout)
    tr = dict(zip(order, got))
    merged = []
    for k, sc in enumerate(scenes):
        ev = []
        for i in range(len(ss)):
            if at[i] == k:
                ev += tr[i]["ev"][1:] if ev else tr[i]["ev"]
        merged.append({"ev": ev})
    for i, l in c.validate(TRACE, merged, what=what):
        ev = merged[i]["ev"]
        first = ev[l - 1] if 0 < l <= len(ev) else None
        if first and first.get("op") == "Hang":
            raise Exception("a rendering did not end in time")
        c.violation({"suite": "transport", "module": TRACE, "what": what, "session": {"assets": scenes[i][0], "prims": scenes[i][1], "law": scenes[i][2], "ops": scenes[i][3]},
                     "first_unexplained_event": l, "event": first, "trace": ev}, None)
    return merged


def corrupt(t):
    seen = set()
    for e in t["ev"]:
        if e["op"] != "Image":
            continue
        k = (e["lo"], e["hi"])
        if k in seen and e["m"][-1] > 50 and e["se"][-1] * 50 < e["m"][-1]:
            e["m"][-1] = int(e["m"][-1] * 1.5) + 10
            return t
        seen.add(k)
    return None


MODEL = "SPECIFICATION Spec\nCONSTANTS N = %d M = %d D = %d W = %d K = %d\nINVARIANTS Unbiased Uniform\n"
