"""Scene graph and ray queries: spec/SceneGraph.tla, spec/Geometry.tla."""
import json
TRACE = "SceneTrace"
LIGHTS = {"pt": False, "env0": True, "env1": True, "dir": False}
ID = [[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 1, 0]]
LIM = 10


def mul(A, B):
    return [[sum(A[i][k] * B[k][j] for k in range(3)) + (A[i][3] if j == 3 else 0) for j in range(4)] for i in range(3)]


def app(M, p):
    return [sum(M[i][k] * p[k] for k in range(3)) + M[i][3] for i in range(3)]


def rand_lin(r):
    perm = [0, 1, 2]
    r.shuffle(perm)
    M = [[0] * 4 for _ in range(3)]
    for i in range(3):
        M[i][perm[i]] = r.choice([1, 1, 1, -1])
    if r.random() < .3:
        i = r.randrange(3)
        M[i] = [2 * x for x in M[i]]
    if r.random() < .25:
        i, j = r.sample(range(3), 2)
        for k in range(3):
            M[i][k] += M[j][k]
    return M


def rand_M(r, t=3):
    M = rand_lin(r)
    for i in range(3):
        M[i][3] = r.randint(-t, t)
    return M


def rand_tri(r, lim=4, kind=None):
    kind = kind or r.choice(["any", "any", "flat", "flat", "deg"])
    while True:
        p = [[r.randint(-lim, lim) for _ in range(3)] for _ in range(3)]
        if kind == "flat":
            a = r.randrange(3)
            v = r.randint(-lim, lim)
            for q in p:
                q[a] = v
        e1 = [p[1][i] - p[0][i] for i in range(3)]
        e2 = [p[2][i] - p[0][i] for i in range(3)]
        n = [e1[1] * e2[2] - e1[2] * e2[1], e1[2] * e2[0] - e1[0] * e2[2], e1[0] * e2[1] - e1[1] * e2[0]]
        if any(n) or kind == "deg":
            return {"p": p, "n": [[r.randint(-1, 1), r.randint(-1, 1), 1] for _ in range(3)], "t": [[r.randint(0, 4), r.randint(0, 4)] for _ in range(3)]}


def quad(r, lim=4):
    """Two triangles sharing a diagonal, in an axis plane."""
    a = r.randrange(3)
    b, c = [i for i in range(3) if i != a]
    v, x0, y0 = r.randint(-lim, lim), r.randint(-lim, lim - 1), r.randint(-lim, lim - 1)
    x1, y1 = r.randint(x0 + 1, lim), r.randint(y0 + 1, lim)

    def pt(x, y):
        p = [0, 0, 0]
        p[a], p[b], p[c] = v, x, y
        return p
    A, B, C, D = pt(x0, y0), pt(x1, y0), pt(x1, y1), pt(x0, y1)
    n = [[0, 0, 1]] * 3
    return [{"p": [A, B, C], "n": n, "t": [[0, 0], [1, 0], [1, 1]]}, {"p": [A, C, D], "n": n, "t": [[0, 0], [1, 1], [0, 1]]}]


def rand_mesh(r, n):
    ts = []
    while len(ts) < n:
        if r.random() < .2:
            ts += quad(r)
        else:
            ts.append(rand_tri(r))
    if r.random() < .2 and ts:
        ts.append(json.loads(json.dumps(r.choice(ts))))
    return ts


def rand_ray(r, pts=()):
    while True:
        o = [r.randint(-LIM, LIM) for _ in range(3)]
        x = r.random()
        if x < .25:
            d = [0, 0, 0]
            d[r.randrange(3)] = r.choice([1, -1, 2, -3])
        elif x < .4:
            d = [r.randint(-5, 5) for _ in range(3)]
            d[r.randrange(3)] = 0
        else:
            d = [r.randint(-5, 5) for _ in range(3)]
        if pts and r.random() < .75:
            # towards (near) a point of the scene
            k, s = r.choice(pts), r.randint(1, 4)
            o = [k[i] - s * d[i] for i in range(3)]
            if any(abs(v) > LIM for v in o):
                continue
        if any(d):
            break
    x = r.random()
    t0 = r.choice([0, 0, 0, 1, 4, 8, 12, 16, -8])
    if x < .6:
        return {"o": o, "d": d, "t0": t0, "t1": "inf", "t1n": 0}
    return {"o": o, "d": d, "t0": t0, "t1": "fin", "t1n": t0 + r.choice([0, 1, 8, 16, 24, 32, 64])}


def rand_vis(r, pts):
    far = r.random() < .3
    while True:
        if far:
            o, d = [r.randint(-LIM, LIM) for _ in range(3)], [r.randint(-5, 5) for _ in range(3)]
        else:
            o = r.choice(pts) if pts and r.random() < .6 else [r.randint(-6, 6) for _ in range(3)]
            b = r.choice(pts) if pts and r.random() < .6 else [r.randint(-6, 6) for _ in range(3)]
            d = [b[i] - o[i] for i in range(3)]
        if any(d) and max(abs(x) for x in o) <= LIM and max(abs(x) for x in d) <= 20:
            return {"o": o, "d": d, "far": far}


def prim(mesh="", material="", light="", camera="", medium=""):
    return {"op": "Prim", "mesh": mesh, "material": material, "light": light, "camera": camera, "medium": medium}


class Sim:
    """Just enough of the scene to keep generated sessions within bounds (no cycles, small coordinates)."""
    def __init__(self):
        self.nodes = [{"M": ID, "c": [], "g": True, "mesh": ""}]
        self.mesh = {}

    def reach(self, i, seen=None):
        seen = set() if seen is None else seen
        if i not in seen:
            seen.add(i)
            for c in self.nodes[i]["c"]:
                self.reach(c, seen)
        return seen

    def flat(self, i=0, M=ID):
        n = self.nodes[i]
        if not n["g"]:
            return [(i, M)]
        M2 = mul(M, n["M"])
        return [x for c in n["c"] for x in self.flat(c, M2)]

    def points(self):
        return [app(M, p) for i, M in self.flat() if self.nodes[i]["mesh"] for t in self.mesh[self.nodes[i]["mesh"]] for p in t["p"]]

    def ok(self):
        f = self.flat()
        return len(f) <= 24 and all(abs(v) <= LIM for p in self.points() for v in p) and all(abs(M[i][j]) <= (2 if j < 3 else 40) for _, M in f for i in range(3) for j in range(4))


MODELS = [{"name": "mod0", "parts": [prim("m0", "mat0"), prim("m1", "mat1", "pt")], "graph": [
            {"type": "group", "M": [[1, 0, 0, 1], [0, 1, 0, 0], [0, 0, 1, 0]], "children": [1, 2]}, {"type": "prim", "mesh": "m0", "material": "mat0", "camera": ""},
            {"type": "prim", "mesh": "", "material": "", "camera": "cam1"}]},
          {"name": "mod1", "parts": [], "graph": []}]


def cfg():
    m = {x["name"]: [{k: p[k] for k in ("mesh", "material", "light", "camera", "medium")} for p in x["parts"]] for x in MODELS}
    g = {x["name"]: [{"type": n["type"], "children": n.get("children", []), "inst": False, "M": n.get("M", ID), "mesh": n.get("mesh", ""), "material": n.get("material", ""), "light": "",
                      "camera": n.get("camera", ""), "medium": ""} for n in x["graph"]] for x in MODELS}
    return {"lights": LIGHTS, "models": m, "graphs": g}


def session(ops, threads=4):
    return {"ops": ops, "models": MODELS, "cfg": cfg(), "threads": threads}


M0 = [{"p": [[-2, -2, 0], [3, -2, 0], [0, 3, 1]], "n": [[0, 0, 1]] * 3, "t": [[0, 0], [1, 0], [0, 1]]}]


def from_model(c, h):
    r = c.rng
    ops = [{"op": "Mesh", "name": "m0", "tris": M0}, {"op": "Mesh", "name": "m1", "tris": M0}] + list(h)
    ops.append({"op": "Build", "threads": 2})
    return session(ops)


def graphs(c, n, rays=6):
    """Random histories of scene graph operations with queries after each build."""
    r, ss = c.rng, []
    for _ in range(n):
        s = Sim()
        ops = []
        clean = False
        for nm in ("m0", "m1"):
            s.mesh[nm] = rand_mesh(r, r.randint(1, 3))
            ops.append({"op": "Mesh", "name": nm, "tris": s.mesh[nm]})
        env = False
        for _ in range(r.randint(6, 28)):
            x = r.random()
            old = json.loads(json.dumps(s.nodes))
            if x < .2:
                p = r.choice([prim("m0", "mat0"), prim("m1", "mat1"), prim("m0", "mat1", "pt"), prim(light="pt"), prim(light="env0"), prim(light="env1"), prim(camera="cam0"), prim(camera="cam1"),
                              prim(medium="med"), prim(mesh="m0"), prim(material="mat0"), prim(), prim(light="pt", camera="cam0"), prim("m0", "mat0", camera="cam1"), prim(light="env1", medium="med"), prim(light="dir")])
                okp = any(p[k] for k in p if k != "op") and not (p["light"] and p["camera"]) and bool(p["mesh"]) == bool(p["material"]) and not (LIGHTS.get(p["light"]) and env)
                if r.random() < .35:
                    M = rand_M(r)
                    s.nodes.append({"M": M, "c": [], "g": True, "mesh": ""})
                    if okp:
                        s.nodes.append({"M": ID, "c": [], "g": False, "mesh": p["mesh"]})
                        s.nodes[-2]["c"].append(len(s.nodes) - 1)
                        s.nodes[0]["c"].append(len(s.nodes) - 2)
                        if not s.ok():
                            s.nodes = old
                            continue
                    else:
                        # whether a failed addition leaves an unused group behind is up to the implementation: end here
                        ops.append(dict(p, op="AddT", M=M, loc=""))
                        break
                    ops.append(dict(p, op="AddT", M=M, loc=""))
                else:
                    if okp:
                        s.nodes.append({"M": ID, "c": [], "g": False, "mesh": p["mesh"]})
                    ops.append(p)
                if okp and LIGHTS.get(p["light"]):
                    env = True
            elif x < .36:
                if r.random() < .7:
                    M = rand_M(r)
                    ops.append({"op": "Group", "M": M})
                else:
                    M = ID
                    ops.append({"op": "Inst"})
                s.nodes.append({"M": M, "c": [], "g": True, "mesh": ""})
            elif x < .68:
                p, ch = r.randint(-1, len(s.nodes)), r.randint(-1, len(s.nodes))
                good = 0 <= p < len(s.nodes) and 0 <= ch < len(s.nodes) and s.nodes[p]["g"]
                if good:
                    if p in s.reach(ch):
                        continue
                    s.nodes[p]["c"].append(ch)
                    if not s.ok():
                        s.nodes = old
                        continue
                ops.append({"op": "Child", "p": p, "c": ch})
            elif x < .74:
                m = r.choice(["mod0", "mod1", ""])
                p = r.randint(-1, len(s.nodes))
                if m and 0 <= p < len(s.nodes):
                    for q in MODELS[int(m[-1])]["parts"]:
                        s.nodes.append({"M": ID, "c": [], "g": False, "mesh": q["mesh"]})
                        if s.nodes[p]["g"]:
                            s.nodes[p]["c"].append(len(s.nodes) - 1)
                    if not s.ok():
                        s.nodes = old
                        continue
                ops.append({"op": "Model", "p": p, "loc": m})
            elif x < .79:
                m = r.choice(["mod0", "mod1", ""])
                if m:
                    o = len(s.nodes)
                    for q in MODELS[int(m[-1])]["graph"]:
                        s.nodes.append({"M": q.get("M", ID), "c": [k + o for k in q.get("children", [])], "g": q["type"] == "group", "mesh": q.get("mesh", "")})
                ops.append({"op": "FromModel", "loc": m})
            elif x < .82:
                nm = r.choice(["m0", "m1"])
                om = s.mesh[nm]
                s.mesh[nm] = rand_mesh(r, r.randint(0, 3))
                if not s.ok():
                    s.mesh[nm] = om
                    continue
                clean = False
                ops.append({"op": "Mesh", "name": nm, "tris": s.mesh[nm]})
            elif x < .83:
                ops.append({"op": "Reset"})
                m = s.mesh
                s = Sim()
                s.mesh = m
                env, clean = False, False
            elif x < .95:
                ops.append({"op": "Build", "threads": r.choice([1, 2, 8])})
                clean = True
                built_pts = s.points()
            else:
                ops.append({"op": "SaveLoad"})
            if clean and r.random() < .5:
                ops.append({"op": "Rays", "q": [rand_ray(r, built_pts) for _ in range(rays)]})
                ops.append({"op": "Vis", "q": [rand_vis(r, built_pts) for _ in range(rays)]})
        ss.append(session(ops, r.choice([1, 2, 8])))
    return ss


def soups(c, n, tris, rays):
    """Larger scenes, many rays."""
    r, ss = c.rng, []
    for _ in range(n):
        k = r.choice(tris)
        ts = rand_mesh(r, k)
        for t in ts:
            if r.random() < .4:
                o = [r.randint(-5, 5) for _ in range(3)]
                t["p"] = [[p[i] + o[i] for i in range(3)] for p in t["p"]]
        ops = [{"op": "Mesh", "name": "m0", "tris": ts}, {"op": "Mesh", "name": "m1", "tris": rand_mesh(r, 2)}]
        ops.append(dict(prim("m0", "mat0"), op="AddT", M=ID, loc=""))
        Ms = [ID]
        if r.random() < .5:
            while True:
                M = rand_M(r, 4)
                if all(abs(v) <= LIM for t in ts for p in t["p"] for v in app(M, p)) or r.random() < .02:
                    break
            if all(abs(v) <= LIM for t in ts for p in t["p"] for v in app(M, p)):
                ops.append(dict(prim("m0", "mat1"), op="AddT", M=M, loc=""))
                Ms.append(M)
        if r.random() < .3:
            ops.append(dict(prim(light="env0"), op="AddT", M=ID, loc=""))
        pts = [app(M, p) for M in Ms for t in ts for p in t["p"]]
        # also points properly inside of triangles
        for t in ts[:60]:
            pts.append([round(sum(t["p"][v][i] for v in range(3)) / 3) for i in range(3)])
        ops.append({"op": "Build", "threads": r.choice([1, 2, 4, 8, 16, 1000])})
        ops.append({"op": "Rays", "q": [rand_ray(r, pts) for _ in range(rays)]})
        ops.append({"op": "Vis", "q": [rand_vis(r, pts) for _ in range(rays // 2)]})
        if r.random() < .3:
            ops.append({"op": "SaveLoad"})
            ops.append({"op": "Rays", "q": [rand_ray(r, pts) for _ in range(rays // 4)]})
        ss.append(session(ops))
    return ss


def boxes(c, n, rays):
    r, ss = c.rng, []
    for _ in range(n):
        qs = []
        for _ in range(rays):
            lo = [r.randint(-4, 3) for _ in range(3)]
            hi = [r.randint(v, 5) for v in lo]
            q = rand_ray(r, [[r.choice([lo[i], hi[i], r.randint(lo[i], hi[i])]) for i in range(3)]])
            q["b"] = {"lo": lo, "hi": hi}
            q["t1"], q["t1n"] = "fin", q["t0"] + r.choice([0, 8, 32, 64, 800])
            qs.append(q)
        ss.append(session([{"op": "Box", "q": qs}]))
    return ss


def tiles(c, n):
    r, ss = c.rng, []
    for k in range(n):
        base = r.choice([1.15, 1.2, 1.25, 1.3, 1.5, 2.0])
        x0 = .01
        m = 1
        while x0 * base ** m < 1e8 and m < 160:
            m += 1
        ss.append(session([{"op": "Tiles", "n": m - r.randint(0, 3), "base": base, "x0": x0, "mirror": k % 2 == 1}], r.choice([1, 4])))
    return ss


def corrupt(t):
    for e in reversed(t["ev"]):
        if e["op"] == "Rays":
            for q in e["q"]:
                if q["a"]["hit"]:
                    q["a"]["t"] += 4096
                    return t
        if "obs" in e and e["obs"]["trav"]:
            e["obs"]["trav"][0]["M"][0][3] += 1
            return t
    return None
