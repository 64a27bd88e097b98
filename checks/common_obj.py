"""Wavefront OBJ files: commands of the specification written as text in many ways."""
TRACE = "ObjTrace"
LIB = {"a": [{"c": "newmtl", "name": "m1"}, {"c": "Kd", "x": [1, 2, 3]}, {"c": "newmtl", "name": "m2"}, {"c": "Ke", "x": [4, 0, 0]}]}


def num(rng, k):
    """k quarters as text"""
    v = k / 4
    forms = ["%g" % v, "%.2f" % v, "%.6f" % v, "%e" % v]
    if v >= 0:
        forms.append("+%g" % v)
    if v == int(v):
        forms.append("%d" % v)
    return rng.choice(forms)


def sep(rng, wide):
    return rng.choice([" ", "  ", "\t", " \t"]) if wide else " "


def vert(rng, v):
    p, t, n = v
    if n:
        return "%d/%s/%d" % (p, t or "", n)
    if t:
        return "%d/%d" % (p, t)
    return "%d" % p


def line(rng, c, wide):
    s = lambda: sep(rng, wide)
    k = c["c"]
    if k in ("v", "vn", "vt", "Kd", "Ks", "Ke"):
        t = k + s() + s().join(num(rng, x) for x in c["x"])
        if k == "vt" and wide and rng.random() < .3:
            t += s() + "0"
        if k == "v" and wide and rng.random() < .2:
            t += s() + "1.0"
    elif k in ("Ni", "Ns", "aniso"):
        t = k + s() + num(rng, c["x"])
    elif k == "illum":
        t = k + s() + str(c["x"])
    elif k == "f":
        t = "f" + s() + s().join(vert(rng, v) for v in c["vs"])
    elif k in ("g",):
        t = "g" + s() + c.get("name", "x")
    elif k in ("usemtl", "newmtl", "mtllib", "map_Kd"):
        t = k + s() + c["name"]
    else:
        t = rng.choice(["# a comment", "", "s off", "o thing", "#v 1 2 3", "l 1 2", "vp 0.1 0.2", "fo 1 2 3", "# " + "x" * 300, "usemtlx m1", "   ", "Tr 0.5", "d 1", "map_Bump x.ppm"])
    if wide:
        if rng.random() < .2:
            t = rng.choice([" ", "\t", "    "]) + t
        if rng.random() < .2:
            t += rng.choice([" ", "\t", "   "])
        if k == "f" and rng.random() < .1:
            t += " # f 1 2 3"
    return t


def text(rng, cs, wide):
    eol = rng.choice(["\n", "\n", "\r\n"]) if wide else "\n"
    ls = []
    for c in cs:
        if wide and rng.random() < .15:
            ls.append(line(rng, {"c": "other"}, True))
        ls.append(line(rng, c, wide))
    t = eol.join(ls)
    return t if wide and rng.random() < .3 else t + eol


def session(rng, cs, lib, wide, colors=None, options=False, textures=()):
    files = [{"name": "dir/f.obj", "text": text(rng, cs, wide)}] + [{"name": "dir/" + n, "text": text(rng, m, wide)} for n, m in lib.items()] + list(textures)
    models = [{"name": "model"}]
    if options:
        models += [{"name": "m2", "skip": True}, {"name": "m3", "base": True}]
    return {"files": files, "lib": lib, "cs": cs, "path": "dir/f.obj", "models": models, "colors": colors or {"none": [0, 0, 0]}}


def of_behaviours(rng, bs, wide):
    return [session(rng, b["cs"], LIB, wide) for b in bs]


NAMES = ["m1", "m2", "glass.001", "Material", "a_b", "a.b", "mesh_1", "texture_t1", "x-y:z", "M" * 250]


def rich(rng, n):
    """longer files with everything"""
    out = []
    for _ in range(n):
        lib, used, textures, colors = {}, [], [], {"none": [0, 0, 0]}
        for k in range(rng.randint(0, 2)):
            cs = [{"c": "other"}] * rng.randint(0, 1) + ([{"c": "Kd", "x": [4, 4, 4]}] if rng.random() < .2 else [])
            for _ in range(rng.randint(0, 4)):
                nm = rng.choice([x for x in NAMES if x not in used])
                used.append(nm)
                cs.append({"c": "newmtl", "name": nm})
                for _ in range(rng.randint(0, 6)):
                    w = rng.choice(["Kd", "Ks", "Ke", "Ni", "Ns", "aniso", "illum", "map_Kd", "other"])
                    if w in ("Kd", "Ks"):
                        cs.append({"c": w, "x": [rng.randint(0, 4) for _ in range(3)]})
                    elif w == "Ke":
                        cs.append({"c": w, "x": rng.choice([[0, 0, 0], [4, 8, 0], [0, 0, 1]])})
                    elif w in ("Ni", "Ns"):
                        cs.append({"c": w, "x": rng.choice([4, 6, 10, 40, 400])})
                    elif w == "aniso":
                        cs.append({"c": w, "x": rng.choice([0, 1, 2])})
                    elif w == "illum":
                        cs.append({"c": w, "x": rng.choice([0, 1, 2, 5, 7])})
                    elif w == "map_Kd":
                        tx = rng.choice(["t1.ppm", "t2.ppm", "sub/t1.ppm", "t1.v2.ppm", "sub/t2.ppm"])
                        cs.append({"c": w, "name": tx})
                        if tx not in colors:
                            col = [rng.choice([0, 255]) for _ in range(3)]
                            colors[tx] = [4 * (x // 255) for x in col]
                            textures.append({"name": "dir/" + tx, "bytes": list(b"P6\n1 1\n255\n") + col})
                    else:
                        cs.append({"c": "other"})
            lib["lib%d.mtl" % k] = cs
        cs, np, nn, nt, known = [], 0, 0, 0, []
        bad = rng.random() < .25
        pending = list(lib)
        for _ in range(rng.randint(3, 30)):
            w = rng.choice(["v", "v", "v", "vn", "vt", "f", "f", "f", "g", "usemtl", "usemtl", "mtllib", "other"])
            if w == "v" or np < 3:
                cs.append({"c": "v", "x": [rng.randint(-8, 8) for _ in range(3)]})
                np += 1
            elif w == "vn":
                cs.append({"c": "vn", "x": rng.choice([[0, 0, 4], [0, 4, 0], [4, 4, 0], [-4, 1, 2]])})
                nn += 1
            elif w == "vt":
                cs.append({"c": "vt", "x": [rng.randint(-4, 8) for _ in range(2)]})
                nt += 1
            elif w == "f":
                wt, wn = nt and rng.random() < .5, nn and rng.random() < .5

                def ix(m):
                    i = rng.randint(1, m)
                    return i if rng.random() < .6 else i - m - 1
                k = rng.choice([3, 3, 3, 4, 4, 5, 6, 8])
                vs = [[ix(np), ix(nt) if wt else 0, ix(nn) if wn else 0] for _ in range(k)]
                if bad and rng.random() < .3:
                    v = rng.choice(vs)
                    h = rng.randrange(5)
                    if h == 0:
                        v[0] = rng.choice([0, np + 40, -np - 1, -np - 5, 10 ** 6])
                    elif h == 1:
                        v[1] = rng.choice([nt + 40, -nt - 1, -nt - 2])
                    elif h == 2:
                        v[2] = rng.choice([nn + 40, -nn - 1, -nn - 2])
                    elif h == 3:
                        vs = vs[:rng.randint(0, 2)]
                    else:
                        v[1 + rng.randrange(2)] = 0
                cs.append({"c": "f", "vs": vs})
            elif w == "g":
                cs.append({"c": "g", "name": rng.choice(["x", "a b", "default"])})
            elif w == "usemtl" and (known or bad and rng.random() < .2):
                cs.append({"c": "usemtl", "name": rng.choice(known + (["nope"] if bad and rng.random() < .2 else [])) if known else "nope"})
            elif w == "mtllib" and (pending or bad and rng.random() < .2):
                n = pending.pop(0) if pending else "missing.mtl"
                cs.append({"c": "mtllib", "name": n})
                known += [c["name"] for c in lib.get(n, []) if c["c"] == "newmtl"]
            elif w == "other":
                cs.append({"c": "other"})
        if not lib:
            lib = {"none.mtl": []}
        out.append(session(rng, cs, lib, True, colors, options=rng.random() < .5, textures=textures))
    return out


def plain(cs):
    """files that the other loader reads alike: triangles, materials and libraries that exist"""
    libs = [c["name"] for c in cs if c["c"] == "mtllib"]
    return all(len(c["vs"]) == 3 for c in cs if c["c"] == "f") and "missing.mtl" not in libs and len(set(libs)) == len(libs)


def tiny(rng, n, plugin):
    out = []
    while len(out) < n:
        for s in rich(rng, 50):
            for c in s["cs"]:
                if c["c"] == "f" and len(c["vs"]) > 3:
                    c["vs"] = c["vs"][:3]
            if plain(s["cs"]):
                for m in s["lib"].values():     # (parameters of no material make one without a name)
                    while m and m[0]["c"] != "newmtl":
                        m.pop(0)
                    m or m.append({"c": "newmtl", "name": "only%d" % len(out)})
                # written again without the liberties of the built-in loader
                s = session(rng, [c for c in s["cs"] if c["c"] != "other"], {k: [c for c in m if c["c"] not in ("other", "aniso")] for k, m in s["lib"].items()}, False, s["colors"], options=rng.random() < .5,
                            textures=[f for f in s["files"] if "bytes" in f])
                s["loader"] = plugin
                out.append(s)
    return out[:n]


def long_lines(rng):
    """lines beyond any fixed buffer"""
    tri = [{"c": "v", "x": [0, 0, 0]}, {"c": "v", "x": [4, 0, 0]}, {"c": "v", "x": [0, 4, 0]}]
    f = {"c": "f", "vs": [[1, 0, 0], [2, 0, 0], [3, 0, 0]]}
    out = []
    for n in (4094, 4095, 4096, 4097, 9000):
        s = session(rng, tri + [{"c": "other"}, f], {"none.mtl": []}, False)
        ls = s["files"][0]["text"].split("\n")
        ls[3] = "#" + "x" * (n - 1)
        s["files"][0]["text"] = "\n".join(ls)
        out.append(s)
    for k in (100, 700, 2000):
        poly = {"c": "f", "vs": [[1 + i % 3, 0, 0] for i in range(k)]}
        out.append(session(rng, tri + [poly, f], {"none.mtl": []}, False))
    return out


def corrupt(t):
    for e in t["ev"]:
        if e["op"] == "Load" and e["meshes"] and e["meshes"][-1]["tris"]:
            e["meshes"][-1]["tris"][-1][1]["p"][2] += 1
            return t
        if e["op"] == "Load" and not e["ret"]:
            e["ret"] = True
            return t
    return None
