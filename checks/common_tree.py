"""Histories of asset-tree operations: from the specification (TLC) and at random."""
import json
NAMES = ["a", "ab", "b", "c", "g", "h", "x"]
KIDS = ["x", "y", "xy"]
BADNAMES = ["", "a.b", "a b", "$", "a/b", "x.", ".x", "a\"b", "a[0]", "a+b"]
BADLOCS = ["", "x", "assets", "assets.a", "a", "$x.assets", "$.assetsx", "$.assets..a", "$.a", "$..assets", ".$.assets", "$$.assets.a", "$.assets.a.x.y.z.w", " $.assets"]


def universe():
    n = ["a", "ab", "b", "c", "g", "x"]
    u = [[]] + [[x] for x in NAMES] + [[x, y] for x in n for y in NAMES]
    u += [[x, y, z] for x in ("g", "c", "a", "h") for y in ("a", "x", "ab", "c", "g") for z in ("a", "x", "xy", "y")]
    return u


U = universe()
import units
TRACE = "AssetTreeTrace"


def session(ops):
    return {"ops": ops, "universe": U, "cfg": {"universe": U}}


def exhaustive(c, menu, k):
    b = c.behaviours("MCAssetTree", 'SPECIFICATION Spec\nCONSTANTS K = %d\n Menu = "%s"\nINVARIANT TreeInv\nCONSTRAINT Emit\n' % (k, menu)
                     + "PROPERTIES Atomic Fresh\n", "all histories of length %d, menu %s" % (k, menu), heap="8g")
    return [session(x) for x in b]


def simulated(c, menu, n, k):
    b = c.behaviours("MCAssetTree", 'SPECIFICATION Spec\nCONSTANTS K = %d\n Menu = "%s"\nINVARIANT TreeInv\nCONSTRAINT Emit\n' % (k, menu),
                     "random histories of length %d, menu %s" % (k, menu), simulate=n, depth=k + 1)
    return [session(x) for x in b]


class Gen:
    """Random histories, with a rough picture of what exists so that most operations are meaningful."""

    def __init__(self, rng, w):
        self.r = rng
        self.w = w      # weights of the operations
        self.paths = []
        self.groups = [[]]
        self.files = []
        self.tag = 1

    def path(self):
        r = self.r
        if self.paths and r.random() < 0.8:
            return r.choice(self.paths)
        if r.random() < 0.3:
            return r.choice(self.groups)
        return [r.choice(NAMES) for _ in range(r.randint(1, 3))]

    def refs(self, here, m=3):
        r = self.r
        out = []
        for _ in range(r.choice([0, 1, 1, 2, m])):
            to = self.path()
            q = r.random()
            if q < 0.15:
                to = here
            elif q < 0.3:
                to = here + [r.choice(KIDS)]
            out.append({"ty": r.choice(["C", "C", "A", "B", "A"]), "to": to, "strict": r.random() < 0.25})
        return out

    def kids(self, here, depth):
        r = self.r
        if depth == 0 or r.random() < 0.5:
            return []
        names = r.sample(KIDS, r.randint(1, len(KIDS)))
        self.tag += 1
        return [{"n": n, "k": r.choice("AB"), "tag": self.tag, "fail": "no" if r.random() > self.w.get("failkid", 0.03) else r.choice(["early", "late", "lm", "int"]),
                 "fail_load": 0, "refs": self.refs(here + [n], 2), "kids": self.kids(here + [n], depth - 1)} for n in names]

    def load(self):
        r = self.r
        g = r.choice(self.groups)
        n = r.choice(NAMES)
        if self.paths and r.random() < self.w.get("replace", 0.5):
            p = r.choice(self.paths)
            g, n = p[:-1], p[-1]
        here = g + [n]
        q = r.random()
        k = "G" if q < 0.2 else "U" if q < 0.2 + self.w.get("unknown", 0.02) else r.choice("AB")
        self.tag += 1
        fail = "no" if r.random() > self.w.get("fail", 0.08) else r.choice(["early", "late", "lm", "int"])
        op = {"op": "Load", "g": g, "n": n, "k": k, "tag": self.tag, "fail": fail, "fail_load": 1 if r.random() < self.w.get("fail_load", 0.02) else 0,
              "refs": [], "kids": []}
        if k in "AB":
            op["kids"] = self.kids(here, 2)
            op["refs"] = self.refs(here)
        if r.random() < self.w.get("badname", 0.02):
            op["n"] = r.choice(BADNAMES)
            return op
        if k == "U" or fail != "no":
            return op
        self.paths = [p for p in self.paths if p[:len(here)] != here] + [here]
        self.groups = [p for p in self.groups if p[:len(here)] != here] + ([here] if k == "G" and len(here) < 3 else [])
        for x in op["kids"]:
            self.paths.append(here + [x["n"]])
            for y in x["kids"]:
                self.paths.append(here + [x["n"], y["n"]])
        return op

    def op(self):
        r = self.r
        ks = ["Load", "Save", "LoadSer", "SaveState", "LoadState", "Truncate", "Reset", "Get", "Print"]
        d = {"Load": 10, "Save": 2, "LoadSer": 2, "SaveState": 0.7, "LoadState": 0.7, "Truncate": 0.3, "Reset": 0.2, "Get": 0.5, "Print": 0.0}
        d.update(self.w.get("ops", {}))
        o = r.choices(ks, [d[k] for k in ks])[0]
        f = r.choice(["f1", "f2", "f3"])
        if o == "Load":
            return self.load()
        if o == "Save":
            self.files.append(f)
            return {"op": o, "p": self.path(), "f": f}
        if o == "LoadSer":
            n = r.choice(NAMES) if r.random() > 0.05 else r.choice(BADNAMES)
            g = r.choice(self.groups)
            here = g + [n]
            if here not in self.paths and n in NAMES:
                self.paths.append(here)
            return {"op": o, "g": g, "n": n, "f": r.choice(self.files) if self.files and r.random() < 0.9 else "none"}
        if o == "SaveState":
            self.files.append(f)
            return {"op": o, "f": f}
        if o == "LoadState":
            return {"op": o, "f": r.choice(self.files) if self.files and r.random() < 0.9 else "none"}
        if o == "Truncate":
            den = r.choice([2, 3, 7, 16, 1])
            return {"op": o, "f": r.choice(self.files) if self.files else "none", "num": r.randint(0, den), "den": den}
        if o == "Reset":
            self.paths, self.groups = [], [[]]
            return {"op": o}
        if o == "Print":
            return {"op": o, "weak": r.random() < 0.7}
        if r.random() < 0.4:
            return {"op": "Get", "wf": False, "path": [], "text": r.choice(BADLOCS), "ty": r.choice("CABG")}
        return {"op": "Get", "wf": True, "path": self.path(), "text": "", "ty": r.choice("CABG")}


def random_histories(c, n, k, w):
    out = []
    for _ in range(n):
        g = Gen(c.rng, w)
        out.append(session([g.op() for _ in range(c.rng.randint(max(2, k // 2), k))]))
    return out


def corrupt(t):
    """One observation of a recorded trace changed."""
    for e in reversed(t["ev"]):
        s = e.get("snap", [])
        for x in s:
            if x["refs"] and x["refs"][0] != 0:
                x["refs"][0] = -1
                return t
    e = t["ev"][-1]
    if e.get("res"):
        e["res"].pop()
        return t
    return None


def run(c, menu, kq, kt, weights, sim=(300, 3000), simlen=10, rnd=(400, 6000), rndlen=14):
    c.build(units.UNITS, plugins=units.plugins())
    ss = exhaustive(c, menu, c.pick(kq, kt))
    tr = c.judge("tree", TRACE, ss, "all histories of length %d" % c.pick(kq, kt))
    c.corrupt_check(TRACE, tr, corrupt)
    if c.violations and not c.thorough:
        return
    ss = simulated(c, menu, c.pick(*sim), simlen)
    c.judge("tree", TRACE, ss, "random behaviours of the specification")
    ss = random_histories(c, c.pick(*rnd), rndlen, weights)
    tr = c.judge("tree", TRACE, ss, "random histories")
    c.corrupt_check(TRACE, tr, corrupt)
