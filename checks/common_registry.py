"""Registry, aliases and plugins: spec/Registry.tla."""
TRACE = "RegistryTrace"
NAMES = ["vtr::k", "vtr::m", "vtr::a", "vtr::b", "vtr::c", "vtp::a", "vtp::b"]


def place(c):
    a, b = c.plugins["plugin_a"], c.plugins["plugin_b"]
    return [{"how": "copy", "from": a, "to": "d/pa.so"}, {"how": "copy", "from": b, "to": "d/pb_2.so"}, {"how": "text", "to": "d/readme.txt"},
            {"how": "text", "to": "d/Upper.so"}, {"how": "text", "to": "d/pa.so.bak"}, {"how": "dir", "to": "d/sub.so"},
            {"how": "link", "from": "d/pa.so", "to": "e/pz.so"}, {"how": "dir", "to": "empty"}, {"how": "text", "to": "broken.so"}]


FILE = {"d/pa": "a", "d/pb_2": "b", "e/pz": "a", "broken": "", "missing": "", "d/readme": ""}
DIRS = {"d": ["d/pa", "d/pb_2"], "empty": [], "none": [], "e": ["e/pz"]}


def session(c, ops):
    return {"ops": ops, "names": NAMES, "place": place(c)}


def from_model(c, h):
    m = {"p1": "d/pa", "q1": "e/pz"}
    return session(c, [dict(e, path=m[e["path"]]) if "path" in e else e for e in h])


def histories(c, n):
    r = c.rng
    ss = []
    for _ in range(n):
        ops, live, plug_live, openp, alias, impl = [], {}, set(), set(), {}, {}
        for k in range(r.randint(5, 25)):
            x = r.random()
            if x < .25:
                key, al = r.choice(["vtr::k", "vtr::m", "vtr::b", "vtr::c"]), r.choice(["", "", "vtr::a", "vtr::c", "vtr::m"])
                ops.append({"op": "Reg", "key": key, "alias": al, "v": k + 1})
                impl[key] = k + 1
                if al:
                    alias[al] = key
            elif x < .38:
                key, al = r.choice(["vtr::k", "vtr::m", "vtr::b", "vtr::zz"]), r.choice(["", "", "vtr::a", "vtr::m"])
                ops.append({"op": "Unreg", "key": key, "alias": al})
                impl.pop(key, None)
                alias.pop(al, None)
            elif x < .6:
                nm = r.choice(NAMES + ["vtr::nothing"])
                ops.append({"op": "Create", "name": nm, "id": str(k)})
                t = alias.get(nm, nm)
                if t in impl:
                    live[str(k)] = 0
                elif t.startswith("vtp::") and any(FILE[p] == t[5:] for p in openp):
                    live[str(k)] = 1
            elif x < .72 and live:
                i = r.choice(sorted(live))
                del live[i]
                ops.append({"op": "Destroy", "id": i})
            elif x < .82:
                p = r.choice(sorted(FILE))
                ops.append({"op": "Load", "path": p, "file": FILE[p]})
                if FILE[p]:
                    openp.add(p)
            elif any(live.values()):
                continue
            elif x < .9:
                p = r.choice(sorted(FILE))
                ops.append({"op": "Unload", "path": p})
                openp.discard(p)
            elif x < .96:
                d = r.choice(sorted(DIRS))
                ops.append({"op": "LoadDir", "dir": d, "files": [{"path": p, "file": FILE[p]} for p in DIRS[d]]})
                openp |= set(DIRS[d])
            else:
                ops.append({"op": "UnloadAll"})
                openp = set()
        if ops:
            ss.append(session(c, ops))
    return ss


def corrupt(t):
    for e in reversed(t["ev"]):
        if e["probe"]:
            for p in e["probe"]:
                if p["ok"]:
                    p["released"] += 1
                    return t
    return None
