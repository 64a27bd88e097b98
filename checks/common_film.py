"""Films: spec/Film.tla."""
TRACE = "FilmTrace"


def rv(r, hi=100, neg=False):
    return [r.randint(-hi if neg else 0, hi) for _ in range(3)]


def ax(r):
    far = r.choice([0, 0, 0, 0, 0, 0, 1, -1])
    den = r.choice([1, 2, 4, 8, 16, 64, 1024])
    return {"far": far, "mag": r.choice([2.0, 1e3, 1e10, 1e18, 1e300]), "num": r.randint(-den - 3, 2 * den + 3) if r.random() < .3 else r.randint(0, den), "den": den}


def pixop(r, w, h, hi=100):
    o = {"op": "Pix", "k": r.choice(["set", "splat", "splat", "upd"]), "v": rv(r, hi, True), "i": 0, "ras": False, "x": r.randrange(w), "y": r.randrange(h)}
    if r.random() < .4:
        o.update({"ras": True, "rx": ax(r), "ry": ax(r)})
    return o


def histories(c, n):
    r = c.rng
    ss = []
    for _ in range(n):
        dims = {}
        ops = []
        for _ in range(r.randint(6, 16)):
            if not dims or (len(dims) < 3 and r.random() < .25) or r.random() < .04:
                f = r.choice("abc")
                w, h = (r.choice(list(dims.values())) if dims and r.random() < .6 else (r.randint(1, 4), r.randint(1, 4)))
                dims[f] = (w, h)
                ops.append({"op": "New", "f": f, "w": w, "h": h})
                continue
            f = r.choice(sorted(dims))
            w, h = dims[f]
            k = r.random()
            if k < .6:
                o = pixop(r, w, h)
                o["f"] = f
                ops.append(o)
            elif k < .7:
                x, y = r.randrange(w), r.randrange(h)
                ops.append({"op": "Pix", "f": f, "k": "set", "v": [0, 0, 0], "i": 0, "ras": False, "x": x, "y": y})
                for i in range(r.randint(1, 9)):
                    ops.append({"op": "Pix", "f": f, "k": "ave", "i": i, "v": [2520 * r.randint(-9, 9) for _ in range(3)], "ras": False, "x": x, "y": y})
                ops.append({"op": "Clear", "f": f})
            elif k < .82:
                ops.append({"op": "Accum", "f": f, "g": r.choice(sorted(dims))})
            elif k < .9:
                ops.append({"op": "Rescale", "f": f, "s": r.choice([0, 1, -1, 2, 3])})
            else:
                ops.append({"op": "Clear", "f": f})
        ss.append({"ops": ops, "nt": r.choice([1, 2, 4])})
    return ss


def files(c, n):
    r = c.rng
    ss = []
    for _ in range(n):
        w, h = r.randint(1, 5), r.randint(1, 4)
        ops = [{"op": "New", "f": "a", "w": w, "h": h}]
        for _ in range(r.randint(1, 12)):
            ops.append({"op": "Pix", "f": "a", "k": "set", "v": [r.choice([0, 0, 1, 2, 3, 7, 64, 100, 200, 255]) for _ in range(3)], "i": 0, "ras": False, "x": r.randrange(w), "y": r.randrange(h)})
        for _ in range(r.randint(1, 4)):
            ext = r.choice([".pfm", ".hdr", ".png", ".pfm", ".hdr", ".png", ".bmp", "", ".PNGX"])
            base = r.choice(["i", "d/i", "d/e/i", "blocked/i"] + (["full"] if ext == ".pfm" else []))   # full: nothing can be written
            ops.append({"op": "Save", "f": "a", "ext": ext, "path": base, "known": ext in (".pfm", ".hdr", ".png"), "writable": base not in ("blocked/i", "full"), "full": base == "full",
                        "bits": ext == ".png", "block": base == "blocked/i"})
        ss.append({"ops": ops})
    return ss


def par(c, n):
    r = c.rng
    ss = []
    for _ in range(n):
        w, h = r.choice([(1, 1), (2, 1), (2, 2)])
        ops = [{"op": "New", "f": "a", "w": w, "h": h}]
        for _ in range(r.randint(1, 4)):
            progs = [[{"p": r.randint(1, w * h), "k": r.choice(["set", "splat", "splat", "upd"]), "v": rv(r, 50), "i": 0} for _ in range(r.randint(1, 3))] for _ in range(r.randint(2, 3))]
            ops.append({"op": "Par", "f": "a", "progs": progs})
            if r.random() < .5:
                ops.append({"op": "Clear", "f": "a"})
        ss.append({"ops": ops})
    return ss


def gated(c, bs):
    ss = []
    for b in bs:
        ss.append({"ops": [{"op": "New", "f": "a", "w": 1, "h": 1},
                           {"op": "Pix", "f": "a", "k": "set", "v": [1, 1, 1], "i": 0, "ras": False, "x": 0, "y": 0},
                           {"op": "Gated", "f": "a", "sched": b["sched"], "progs": [[dict(o, p=1)] for o in b["ops"]]}]})
    return ss


def storm(c, n, per):
    r = c.rng
    ss = []
    for _ in range(n):
        w, h = r.choice([(1, 1), (2, 1), (3, 2)])
        ss.append({"ops": [{"op": "New", "f": "a", "w": w, "h": h},
                           {"op": "Storm", "f": "a", "nt": r.choice([2, 4, 8]), "per": per, "span": r.randint(1, w * h), "v": [1, 2, 3]}]})
    return ss


def corrupt(t):
    for e in reversed(t["ev"]):
        if e["op"] in ("Pix", "Par", "Storm", "Clear"):
            e["obs"][0]["px"][0][0] += 1
            return t
    return None
