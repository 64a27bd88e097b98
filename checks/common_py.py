"""Sessions through the Python module."""
BRIDGE = "BridgeTrace"
WORLD = "PyWorldTrace"
B_MODEL = "SPECIFICATION Spec\nCONSTANTS Depth = %d MaxLen = 2\nINVARIANTS Known Whole Back Turn Quarter\n"
B_GEN = "SPECIFICATION Spec\nCONSTANTS Depth = %d MaxLen = 2\nCONSTRAINT Emit\n"
W_MODEL = "SPECIFICATION Spec\nCONSTANT K = %d\nINVARIANTS OnceOnly Sound Same\n"
W_GEN = "SPECIFICATION Spec\nCONSTANT K = %d\nCONSTRAINT Emit\n"
ROUTES = ["poll", "dict", "kwargs", "group", "answer"]
VEC = [("ray", 3), ("ray2", 3), ("geom", 3), ("surface", 3), ("uv", 2)]
MATS = ["group", "kwargs", "dict"]


def chunks(ops, n):
    return [{"ops": ops[i:i + n]} for i in range(0, len(ops), n)]


def send(route, x):
    return {"op": "Send", "route": route, "x": x}


def value(r, d):
    k = r.choice(["null", "bool", "int", "float", "npfloat", "str", "comp", "range", "array"] * 3 + ["huge", "set", "object", "ray", "enum"] if d <= 0 or r.random() < 0.45 else ["list", "tuple", "dict", "dict"])
    if k == "bool":
        v = r.random() < 0.5
    elif k == "int":
        e = r.choice([3, 8, 16, 31, 32, 33, 52, 62, 63])
        v = str(r.choice([1, -1]) * ((1 << e) - r.choice([1, 2, 1 + r.randrange(1 << (e - 1))])))
    elif k == "huge":
        v = str(r.choice([1 << 64, -(1 << 63) - 1, 10 ** 30, -10 ** 25]))
    elif k in ("float", "npfloat"):
        v = r.choice([0.0, -0.0, 1.0, -2.5, 1e300, 5e-324, 0.1, float("inf"), r.uniform(-10, 10), float(1 << 53), 3e9]).hex()
    elif k == "str":
        v = r.choice(["", "a", "$.assets.c1", "日本", "two words", "x" * 300, "nul", "{}", "1"])
    elif k == "comp":
        v = r.choice(["c1", "c2"])
    elif k == "range":
        a = r.randint(-3, 5)
        v = [str(a + i) for i in range(r.randint(0, 4))]
    elif k == "array":
        v = [r.uniform(-5, 5).hex() for _ in range(r.randint(1, 5))]
    elif k in ("list", "tuple"):
        v = [value(r, d - 1) for _ in range(r.randint(0, 4))]
    elif k == "dict":
        names = r.sample(["a", "b", "c", "", "long name", "$x", "é"], r.randint(0, 4))
        v = [{"n": {"k": "str", "v": n}, "v": value(r, d - 1)} for n in names]
        if v and r.random() < 0.08:
            v[0]["n"] = {"k": "int", "v": "1"}
    else:
        v = []
    return {"k": k, "v": v}


def vec(r):
    n = r.choice([2, 3, 3, 3, 4])
    s = r.choice([-3, -2, -1, 1, 1, 2, 3, 5])
    lo = min(0, s * (n - 1))
    off = -lo + r.randint(0, 3)
    size = off + max(0, s * (n - 1)) + 1 + r.randint(0, 2)
    return {"off": off, "shape": [n], "str": [s], "t": r.choice("dddfi"), "buf": [r.randint(-99, 99) for _ in range(size)]}


def mat(r):
    sh = r.choice([[4, 4]] * 6 + [[3, 3], [2, 8], [4, 3], [3, 4], [16], [8, 2], [5, 5], [4, 5], [1, 16]])
    buf = [r.randint(-99, 99) for _ in range(200)]
    if len(sh) == 1:
        return {"off": 0, "shape": sh, "str": [1], "t": "d", "buf": buf}
    q = r.random()
    if q < 0.3:
        st = [sh[1], 1]
    elif q < 0.6:
        st = [1, sh[0]]                       # in Fortran order, as a transposed array is
    else:
        a = r.choice([1, 2, 3])
        b = a * sh[1] + r.choice([0, 1, 2])
        st = r.choice([[b, a], [a * sh[0] + 1, a][::-1], [-b, a], [b, -a]])
    lo = sum(min(0, s * (n - 1)) for s, n in zip(st, sh))
    return {"off": -lo + r.randint(0, 4), "shape": sh, "str": st, "t": r.choice("dddddf"), "buf": buf}


def film(r):
    w, h = r.randint(1, 6), r.randint(1, 6)
    ops = [{"op": "Film", "w": w, "h": h}, {"op": "Buffer"}]
    for _ in range(r.randint(1, 8)):
        ops.append({"op": "Pixel", "x": r.randrange(w), "y": r.randrange(h), "v": [r.randint(0, 99) for _ in range(3)]})
        if r.random() < 0.4:
            ops.append({"op": "Buffer"})
    return ops + [{"op": "Buffer"}]


def mixed(r, n):
    ss = []
    for _ in range(n):
        ops = []
        for _ in range(r.randint(4, 10)):
            q = r.random()
            if q < 0.4:
                ops.append(send(r.choice(ROUTES), value(r, 3)))
            elif q < 0.55:
                route, k = r.choice(VEC)
                ops.append({"op": "Vec", "route": route, "n": k, "a": vec(r)})
            elif q < 0.75:
                ops.append({"op": "Mat", "route": r.choice(MATS), "a": mat(r)})
            elif q < 0.83:
                f = r.choice(["identity", "translate", "scale", "rotate"])
                ops.append({"op": "Helper", "f": f, "v": [r.randint(1, 3)] if f == "rotate" else [r.randint(-50, 50) for _ in range(3)]})
            elif q < 0.88:
                ops.append({"op": "Own", "v": [r.randint(-9, 9) for _ in range(3)]})
            elif q < 0.92:
                ops.append({"op": "Names"})
            else:
                ops += film(r)
        ss.append({"ops": ops})
    return ss


def corrupt_bridge(t):
    for e in t["ev"]:
        if e["op"] == "Send" and e["ret"] == "ok" and e["out"]["k"] in ("int", "float", "str"):
            e["out"]["v"] += "1"
            return t
        if e["op"] in ("Vec", "Mat") and e["ret"] == "TypeError":
            e["ret"] = "ok"
            return t
    return None


def world(r, n):
    ss = []
    for _ in range(n):
        ops = [{"op": "Reg", "k": "k1", "c": 1}]
        for _ in range(r.randint(6, 30)):
            k = r.choice(["Reg", "Unreg", "Load", "Load", "Load", "Create", "Hold", "Hold", "Drop", "Reset", "Save", "LoadState", "LoadState", "Material"])
            o = {"op": k}
            if k in ("Reg", "Unreg", "Load", "Create"):
                o["k"] = r.choice(["k1", "k1", "k2"])
            if k == "Reg":
                o["c"] = r.randint(1, 2)
            if k in ("Load", "Create"):
                o.update(v=r.choice([0, 1, 2, 3, 4, 5, 13, 1000]), fail=r.random() < 0.15)
            if k == "Load":
                o["how"] = r.randrange(4)
            if k in ("Load", "Hold", "Material"):
                o["n"] = r.choice("ab")
            if k in ("Create", "Hold", "Drop"):
                o["x"] = r.choice("xyz")
            ops.append(o)
        ss.append({"ops": ops})
    return ss


def corrupt_world(t):
    for e in t["ev"]:
        if e["died"]:
            e["died"] = e["died"][1:]
            return t
    return None


def loops(r, n):
    ss = []
    for _ in range(n):
        nt = r.choice([1, 2, 3, 4, 8])
        ops = [{"op": "Init", "nt": nt}]
        for _ in range(r.randint(1, 4)):
            k = r.choice([0, 1, 2, 5, 9, 17, 40])
            ops.append({"op": "Loop", "n": k, "work": r.choice([0, 1, 5]), "throws": sorted(r.sample(range(k), min(k, r.choice([0, 0, 1, 2, 3]))))})
        ss.append({"ops": ops})
    return ss


# functions of the interfaces that Python can call and define: arguments and answer
# (i integer, f float, v vector, w vector of 2, m matrix, s text, b boolean, g geometry, r ray, p interaction, j properties, n nothing)
FUNCS = {
    "Film": {"num_pixels": "i", "set_pixel": "iiv n", "save": "s b"},
    "Scene": {"reset": "n", "root_node": "i", "create_primitive_node": "j i", "create_group_node": "m i", "create_instance_group_node": "i", "add_child": "ii n",
              "add_child_from_model": "is n", "create_group_from_model": "s i", "num_nodes": "i", "num_lights": "i", "camera_node": "i", "medium_node": "i",
              "env_light_node": "i", "set_accel": "s n", "build": "n", "pdf_light_selection": "i f", "light_index_at": "i i", "is_light": "p b", "is_camera": "p b", "intersect": "rff n"},
    "Accel": {"intersect": "rff n"},
    "Texture": {"eval": "w v", "eval_by_pixel_coords": "ii v"},
    "Mesh": {"num_triangles": "i"},
    "Material": {"is_specular_component": "i b", "pdf_direction": "gvvib f", "reflectance": "g v"},
    "Phase": {"pdf_direction": "gvv f", "eval": "gvv v"},
    "Medium": {"is_emitter": "b", "eval_transmittance": "rff v"},
    "Volume": {"has_scalar": "b", "max_scalar": "f", "eval_scalar": "v f", "has_color": "b", "eval_color": "v v"},
    "Camera": {"set_aspect_ratio": "f n", "view_matrix": "m", "projection_matrix": "m", "primary_ray": "w r", "pdf_direction": "gv f", "pdf_position": "g f", "pdf_direct": "ggv f",
               "raster_position": "v w", "is_connectable": "g b", "eval": "v v"},
    "Light": {"is_infinite": "b", "pdf_direction": "gv f", "is_connectable": "g b", "eval": "gvb v"},
    "Renderer": {"render": "j"},
}


def arg(r, k):
    v3 = [r.randint(-99, 99) for _ in range(3)]
    return {"i": lambda: {"t": "i", "v": r.randint(-1000, 1000)}, "f": lambda: {"t": "f", "v": r.randint(-1000, 1000)}, "v": lambda: {"t": "v", "v": v3}, "w": lambda: {"t": "v", "v": v3[:2]},
            "m": lambda: {"t": "m", "v": [[r.randint(-99, 99) for _ in range(4)] for _ in range(4)]}, "s": lambda: {"t": "s", "v": "t%d" % v3[0]}, "b": lambda: {"t": "b", "v": r.random() < 0.5},
            "g": lambda: {"t": "g", "v": v3 + [r.randint(-9, 9) for _ in range(3)]}, "r": lambda: {"t": "r", "v": v3 + [r.randint(-9, 9) for _ in range(3)]}, "p": lambda: {"t": "sp", "v": v3},
            "j": lambda: {"t": "j", "v": r.randint(0, 99)}, "n": lambda: {"t": "none", "v": []}}[k]()


def dispatch(r, n):
    ss = []
    for _ in range(n):
        objs, ops = {}, []
        for o in range(1, r.randint(1, 3) + 1):
            i = r.choice(list(FUNCS))
            has = [m for m in FUNCS[i] if r.random() < 0.8]
            if i == "Volume":
                has = list(FUNCS[i])
            objs[o] = i
            ops.append({"op": "Make", "o": o, "iface": i, "has": has, "via": r.randrange(3)})
        for _ in range(r.randint(4, 16)):
            o = r.choice(list(objs))
            m = r.choice(list(FUNCS[objs[o]]))
            q = (" " + FUNCS[objs[o]][m]).split(" ")[-2:]
            q[0] = "".join(q[:-1])
            ops.append({"op": "Call", "o": o, "iface": objs[o], "m": m, "args": [arg(r, k) for k in q[0]], "ans": arg(r, q[1]) if r.random() < 0.9 else {"t": "raise", "v": []}})
        ss.append({"ops": ops})
    return ss


def corrupt_dispatch(t):
    for e in t["ev"]:
        if e["op"] == "Call" and len(e["got"]) == 1 and e["ret"] == "ok":
            if e["res"]["t"] == "i":
                e["res"]["v"] += 1
            else:
                e["got"] = e["got"] * 2
            return t
    return None
