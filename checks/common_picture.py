"""Picture files, textures, environment maps and scenes for ray casting."""
import struct, zlib
from common_sampling import A, L, P

TRACE = "PictureTrace"
MODEL = "SPECIFICATION Spec\nCONSTANTS MaxW = %d MaxH = %d D = %d N = %d\nINVARIANTS Periodic Fair Mirror Same Front\n"
GEN = "SPECIFICATION Spec\nCONSTANTS MaxW = %d MaxH = %d D = 4 N = 3\nCONSTRAINT Emit\n"


# ------------------------------------------------------------------ writers
def flat(px):
    return [c for t in px for c in t]


def pnm(p):
    return list(("%s\n%d %d\n255\n" % ("P5" if p["c"] == 1 else "P6", p["w"], p["h"])).encode()) + flat(p["px"])


def png(p):
    def chunk(t, d):
        return struct.pack(">I", len(d)) + t + d + struct.pack(">I", zlib.crc32(t + d))
    raw = b"".join(b"\0" + bytes(flat(p["px"][y * p["w"]:(y + 1) * p["w"]])) for y in range(p["h"]))
    ihdr = struct.pack(">IIBBBBB", p["w"], p["h"], 8, {1: 0, 2: 4, 3: 2, 4: 6}[p["c"]], 0, 0, 0)
    return list(b"\x89PNG\r\n\x1a\n" + chunk(b"IHDR", ihdr) + chunk(b"IDAT", zlib.compress(raw)) + chunk(b"IEND", b""))


def tga(p, top):
    """24 or 32 bits, rows from the top or from the bottom"""
    h = bytes([0, 0, 2] + [0] * 9) + struct.pack("<HH", p["w"], p["h"]) + bytes([8 * p["c"], (0x20 if top else 0) | (8 if p["c"] == 4 else 0)])
    rows = [p["px"][y * p["w"]:(y + 1) * p["w"]] for y in range(p["h"])]
    if not top:
        rows.reverse()
    return list(h) + [c for r in rows for t in r for c in (t[2], t[1], t[0], *t[3:])]


def bmp(p):
    w, h = p["w"], p["h"]
    rows = b""
    for y in reversed(range(h)):
        r = bytes(c for t in p["px"][y * w:(y + 1) * w] for c in (t[2], t[1], t[0]))
        rows += r + b"\0" * (-len(r) % 4)
    return list(b"BM" + struct.pack("<IHHI", 54 + len(rows), 0, 0, 54) + struct.pack("<IiiHHIIiiII", 40, w, h, 1, 24, 0, len(rows), 2835, 2835, 0, 0) + rows)


def hdr(p):
    """values are multiples of 1/256: mantissas with exponent 0"""
    return list(("#?RADIANCE\nFORMAT=32-bit_rle_rgbe\n\n-Y %d +X %d\n" % (p["h"], p["w"])).encode()) + [c for t in p["px"] for c in (*t, 128)]


def write(p, rng):
    """(name, bytes, encoding)"""
    kinds = {1: ["png", "pgm"], 2: ["png"], 3: ["png", "ppm", "tga", "bmp", "hdr"], 4: ["png", "tga"]}[p["c"]]
    k = rng.choice(kinds)
    if k in ("ppm", "pgm"):
        return "x." + k, pnm(p), "ldr"
    if k == "png":
        return "x.png", png(p), "ldr"
    if k == "tga":
        return "x.tga", tga(p, rng.random() < .5), "ldr"
    if k == "bmp":
        return "x.bmp", bmp(p), "ldr"
    return "x.hdr", hdr(p), "hdr"


def picture(rng, w, h, c, flip):
    return {"w": w, "h": h, "c": c, "flip": flip, "px": [[rng.randrange(256) for _ in range(c)] for _ in range(w * h)]}


# ------------------------------------------------------------------ sessions
def exact(a, d, n):
    """is the position exactly between two of n cells without being exact in binary?"""
    return (a % d) and ((a % d) * n) % d == 0 and (d & (d - 1))


def points(rng, p, d, k):
    out = []
    while len(out) < k:
        a, b = rng.choice([rng.randint(0, d), rng.randint(-5 * d, 5 * d)]), rng.choice([rng.randint(0, d), rng.randint(-5 * d, 5 * d)])
        if not exact(a, d, p["w"]) and not exact(b, d, p["h"]):
            out.append([a, b])
    return out


def texture_session(rng, p, many=40):
    name, data, enc = write(p, rng)
    ops = [{"op": "Load", "path": name, "enc": enc, "pic": p, "expect": "ok", "default": p["flip"] and rng.random() < .5}, {"op": "Pixels"}]
    for d in (rng.choice([2, 4, 8, 64, 4096]), rng.choice([3, 5, 7, 10, 97])):
        ops.append({"op": "Eval", "d": d, "pts": points(rng, p, d, many)})
    return {"files": [{"name": name, "bytes": data}], "ops": ops}


def several(rng, ss, k=3):
    """sessions with several pictures after each other"""
    out = []
    for i in range(0, len(ss), k):
        fs, ops = [], []
        for j, s in enumerate(ss[i:i + k]):
            fs += [dict(f, name="%d_%s" % (j, f["name"])) for f in s["files"]]
            ops += [dict(o, path="%d_%s" % (j, o["path"])) if "path" in o else o for o in s["ops"]]
        out.append({"files": fs, "ops": ops})
    return out


def refused(rng):
    """not a picture"""
    bad = rng.choice([None, [], list(b"hello world, this is not a picture"), list(b"\x89PNG\r\n\x1a\n"), [0], list(b"P6"), list(b"BM") + [0] * 10])
    fs = [] if bad is None else [{"name": "x.png", "bytes": bad}]
    p = picture(rng, 2, 3, 3, True)
    n, d, enc = write(p, rng)
    return {"files": fs + [{"name": "good" + n, "bytes": d}], "ops": [{"op": "Load", "path": "x.png", "pic": p, "expect": "error"}, {"op": "Load", "path": "good" + n, "enc": enc, "pic": p, "expect": "ok"}, {"op": "Pixels"}]}


DIRS = [[x, y, z] for x in (-1, 0, 1) for y in (-1, 0, 1) for z in (-1, 0, 1) if x or y or z]
AZ = {(0, 1): 0, (1, 1): 1, (1, 0): 2, (1, -1): 3, (0, -1): 4, (-1, -1): 5, (-1, 0): 6, (-1, 1): 7}


def polar(d):
    k = abs(d[0]) + abs(d[2])
    return (0 if d[1] > 0 else 180) if k == 0 else 90 if d[1] == 0 else (45 if d[1] > 0 else 135) if k == 1 else (54.74 if d[1] > 0 else 125.26)


def env_session(rng, p):
    name, data, enc = write(p, rng)
    ops = []
    for rot in rng.sample([0, 10, 45, 77, 90, 180, 200, 359, -30, -90, 400, 725], 3):
        ds = []
        for d in DIRS:
            pole = not d[0] and not d[2]
            if not pole and ((45 * AZ[(d[0], d[2])] - rot) * p["w"]) % 360 == 0:
                continue
            if not pole and abs(polar(d) * p["h"] / 180 - round(polar(d) * p["h"] / 180)) < 1e-3:
                continue
            ds.append(d)
        ops.append({"op": "Env", "path": name, "rot": rot, "scale": rng.choice([1, 2, 4, .5]), "pic": p, "dirs": ds})
    s = {"files": [{"name": name, "bytes": data}], "ops": ops}
    s["ops"].insert(0, {"op": "Load", "path": name, "enc": enc, "pic": p, "expect": "ok"})
    return s


def rect_mesh(q, rng):
    ps = [q["x0"], q["y0"], 0, q["x1"], q["y0"], 0, q["x1"], q["y1"], 0, q["x0"], q["y1"], 0]
    ts = [q["x0"], q["y0"], q["x1"], q["y0"], q["x1"], q["y1"], q["x0"], q["y1"]]
    f = rng.choice([[0, 1, 2, 0, 2, 3], [1, 2, 3, 1, 3, 0], [2, 1, 0, 3, 2, 0]])
    return {"ps": ps, "ns": [0, 0, rng.choice([1, -1])], "ts": ts, "fs": {"p": f, "n": [0] * 6, "t": f}}


def cast_session(rng, qs=None, n=None):
    n = n or rng.choice([1, 2, 3, 5, 6, 9])
    z = rng.randint(3, 6)
    o = [rng.randint(-2, 2), rng.randint(-2, 2)]
    if qs is None:
        qs = []
        for k in rng.sample(range(-2, z), rng.randint(1, 4)):
            x, y = o[0] + rng.randint(-4, 3), o[1] + rng.randint(-4, 3)
            qs.append({"x0": x, "x1": x + rng.randint(1, 5), "y0": y, "y1": y + rng.randint(1, 5), "z": k, "color": [rng.randrange(11) * 100 for _ in range(3)], "pic": []})
    assets, prims, files = [], [], []
    for i, q in enumerate(qs):
        assets.append(A("g%d" % i, "mesh::raw", rect_mesh(q, rng)))
        if rng.random() < .4:
            p = picture(rng, rng.choice([1, 2, 3, 5]), rng.choice([1, 2, 4]), rng.choice([3, 4]), rng.random() < .5)
            q["pic"] = [p]
            files.append({"name": "p%d.png" % i, "bytes": png(p)})
            assets += [A("t%d" % i, "texture::bitmap", {"path": "p%d.png" % i, "flip": p["flip"]}), A("m%d" % i, "material::diffuse", {"mapKd": L("t%d" % i)})]
        else:
            m = A("m%d" % i, "material::diffuse", {"Kd": [c / 1000 for c in q["color"]]})
            if rng.random() < .3:
                assets += [dict(m, name="n%d" % i), A("m%d" % i, "material::proxy", {"ref": L("n%d" % i)})]
            else:
                assets.append(m)
        prims.append(P("r%d" % i, [[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 1, q["z"]]], mesh="g%d" % i, material="m%d" % i))
    # rays along borders are not judged
    for q in qs:
        for i in range(n):
            r = (z - q["z"]) * (2 * i + 1 - n)
            if r in (n * (q["x0"] - o[0]), n * (q["x1"] - o[0]), n * (q["y0"] - o[1]), n * (q["y1"] - o[1])):
                return None
            for j in range(n):   # the diagonals
                x, y = r + n * o[0], (z - q["z"]) * (2 * j + 1 - n) + n * o[1]
                X0, X1, Y0, Y1 = (n * q[k] for k in ("x0", "x1", "y0", "y1"))
                if (x - X0) * (Y1 - Y0) == (y - Y0) * (X1 - X0) or (X1 - x) * (Y1 - Y0) == (y - Y0) * (X1 - X0):
                    return None
            for t in q["pic"]:
                if (r * t["w"]) % n == 0 or (r * t["h"]) % n == 0:
                    return None
    back = [rng.randrange(11) * 100 for _ in range(3)]
    mode = rng.choice(["flat", "flat", "shaded", "normal"])
    prop = {"use_constant_color": True} if mode == "flat" else {"visualize_normal": True} if mode == "normal" else {}
    color = []
    if rng.random() < .2:
        color = [rng.randrange(11) * 100 for _ in range(3)]
        prop["color"] = [c / 1000 for c in color]
    if back == [0, 0, 0] or rng.random() < .3:
        back = [0, 0, 0]
    else:
        prop["bg_color"] = [c / 1000 for c in back]
    if rng.random() < .3 and mode != "normal":
        back = [100, 500, 900]
        assets.append(A("e", "light::envconst", {"Le": [.1, .5, .9]}))
        prims.append(P("e", light="e"))
    cam = A("cam", "camera::pinhole", {"position": o + [z], "center": o + [z - 1], "up": [0, 1, 0], "vfov": 90, "aspect": 1})
    prims.append(P("c", camera="cam"))
    rng.shuffle(prims)
    return {"threads": rng.choice([1, 2, 5]), "ops": [{"op": "Cast", "n": n, "z": z, "o": o, "qs": qs, "mode": mode, "color": color, "back": back, "prop": prop, "twice": rng.random() < .2,
                     "scene": {"assets": assets + [cam], "prims": prims, "files": files}}]}


def casts(rng, k):
    out = []
    while len(out) < k:
        s = cast_session(rng)
        if s:
            out.append(s)
    return out


def corrupt(t):
    for e in t["ev"]:
        if e["op"] == "Pixels" and e["v"]:
            e["v"][-1][0] = e["v"][-1][0] + 1
            return t
        if e["op"] == "Cast":
            e["v"][0][0] += 7
            e["e"][0] = [-5, 0, 0]
            return t
        if e["op"] == "Env" and e["q"]:
            e["q"][0]["v"] = [-1, 0, 0]
            return t
    return None
