"""Drives the library through its Python module.  Same protocol as the C++ harness:
SUITE IN OUT JOBS TIMEOUT; one child process per session; records what is observable."""
import gc, json, os, resource, shutil, signal, sys, threading, weakref
suite, src, out, jobs, timeout = sys.argv[1], sys.argv[2], sys.argv[3], int(sys.argv[4]), int(sys.argv[5])
sys.path[:0] = os.environ["VT_PYPATH"].split(":")
import numpy as np
import lightmetrica as lm

FD = -1
LOCK = threading.Lock()


def emit(**e):
    b = (json.dumps(e) + "\n").encode()
    with LOCK:
        while b:
            b = b[os.write(FD, b):]


def attempt(f):
    """The outcome of a call: 'ok' or the kind of exception, and the result."""
    try:
        return "ok", f()
    except Exception as e:
        return type(e).__name__, None


# ------------------------------------------------------------------------------------ values
COMPS = {}


def make(x):
    k, v = x["k"], x["v"]
    if k == "null": return None
    if k == "bool": return v
    if k in ("int", "huge"): return int(v)
    if k == "float": return float.fromhex(v)
    if k == "npfloat": return np.float64(float.fromhex(v))
    if k == "str": return v
    if k == "list": return [make(y) for y in v]
    if k == "tuple": return tuple(make(y) for y in v)
    if k == "dict": return {make(y["n"]): make(y["v"]) for y in v}
    if k == "range": return range(int(v[0]), int(v[-1]) + 1) if v else range(0)
    if k == "array": return np.array([float.fromhex(y) for y in v])
    if k == "comp": return COMPS[v]
    if k == "set": return {1, 2}
    if k == "object": return object()
    if k == "ray": return lm.Ray()
    if k == "enum": return lm.log.LogLevel.Warn
    raise KeyError(k)


def show(x):
    if x is None: return {"k": "null", "v": []}
    if x is True or x is False: return {"k": "bool", "v": x}
    if type(x) is int: return {"k": "int", "v": str(x)}
    if type(x) is float: return {"k": "float", "v": x.hex()}
    if type(x) is str: return {"k": "str", "v": x}
    if type(x) is list: return {"k": "list", "v": [show(y) for y in x]}
    if type(x) is dict: return {"k": "dict", "v": [{"n": show(n), "v": show(y)} for n, y in x.items()]}
    return {"k": "other", "v": type(x).__name__}


class Keep(lm.Renderer):
    def construct(self, prop):
        self.prop = prop

    def render(self):
        return self.prop


class Answer(lm.Renderer):
    """Answers with a value of Python, not one that came from the library."""
    value = None

    def construct(self, prop):
        pass

    def render(self):
        return Answer.value


def send(route, v):
    if route == "poll":
        got = []
        lm.debug.reg_on_poll(lambda y: got.append(y))
        try:
            lm.debug.poll(v)
        finally:
            lm.debug.reg_on_poll(lambda y: None)
        return got[0]
    if route == "dict":
        return lm.load_renderer("keep", "vtkeep", {"v": v}).prop["v"]
    if route == "kwargs":
        return lm.load_renderer("keep", "vtkeep", v=v).prop["v"]
    if route == "group":
        return lm.assets().load_renderer("keep", "vtkeep", v=v).prop["v"]
    if route == "answer":
        Answer.value = {"v": v}
        try:
            # through the virtual function of the library
            return lm.Renderer.render(lm.load_renderer("ans", "vtanswer", {}))["v"]
        finally:
            Answer.value = None
    raise KeyError(route)


def view(a):
    t = np.float64 if a["t"] == "d" else np.float32 if a["t"] == "f" else np.int64
    b = np.array(a["buf"], dtype=t)
    z = b.itemsize
    return np.ndarray(tuple(a["shape"]), t, b, a["off"] * z, tuple(s * z for s in a["str"]))


def ints(a):
    return [[int(round(float(y))) for y in r] for r in a] if getattr(a, "ndim", 1) == 2 else [int(round(float(y))) for y in a]


def as_vec(route, v):
    if route == "ray":
        r = lm.Ray(); r.d = v; return r.d
    if route == "ray2":
        return lm.Ray(v, np.array([0., 0., 1.])).o
    if route == "geom":
        g = lm.PointGeometry(); g.n = v; return g.n
    if route == "surface":
        return lm.PointGeometry.make_on_surface(v, np.array([0., 0., 1.]), np.array([0., 0., 1.])).p
    if route == "uv":
        g = lm.PointGeometry(); g.t = v; return g.t
    raise KeyError(route)


def as_mat(route, M):
    lm.load_accel("accel", "sahbvh", {})
    s = lm.load_scene("scene", "default", {"accel": "$.assets.accel"})
    if route == "group":
        return s.node_at(s.create_group_node(M)).group.local_transform
    lm.load_mesh("mesh", "raw", {"ps": [0, 0, 0, 1, 0, 0, 0, 1, 0], "ns": [0, 0, 1], "ts": [0, 0], "fs": {"p": [0, 1, 2], "n": [0, 0, 0], "t": [0, 0, 0]}})
    lm.load_material("mat", "diffuse", {"Kd": [1, 1, 1]})
    if route == "kwargs":
        s.add_transformed_primitive(M, mesh=lm.get_mesh("$.assets.mesh"), material="$.assets.mat")
    else:
        s.add_transformed_primitive(M, {"mesh": "$.assets.mesh", "material": lm.get_material("$.assets.mat")})
    got = []
    s.traverse_primitive_nodes(lambda node, T: got.append(np.array(T)))
    return got[-1]                    # the root of the scene is visited first


def s_bridge(ops):
    lm.init()
    lm.Renderer.reg(Keep, "renderer::vtkeep")
    lm.Renderer.reg(Answer, "renderer::vtanswer")
    COMPS["c1"] = lm.load_texture("c1", "constant", {"color": [1, 1, 1]})
    COMPS["c2"] = lm.load_renderer("c2", "vtkeep", {})
    film = None
    for o in ops:
        k = o["op"]
        if k == "Send":
            r, v = attempt(lambda: send(o["route"], make(o["x"])))
            emit(op=k, route=o["route"], x=o["x"], ret=r, out=show(v))
        elif k == "Vec":
            r, v = attempt(lambda: ints(as_vec(o["route"], view(o["a"]))))
            emit(op=k, route=o["route"], a=o["a"], n=o["n"], ret=r, out=v or [])
        elif k == "Mat":
            r, v = attempt(lambda: ints(as_mat(o["route"], view(o["a"]))))
            emit(op=k, route=o["route"], a=o["a"], ret=r, out=v or [])
        elif k == "Helper":
            v = o["v"]
            f = {"identity": lambda: lm.identity(), "translate": lambda: lm.translate(np.array(v, dtype=float)), "scale": lambda: lm.scale(np.array(v, dtype=float)),
                 "rotate": lambda: lm.rotate(lm.rad(90.), np.eye(3)[v[0] - 1])}[o["f"]]
            r, y = attempt(lambda: ints(f()))
            emit(op=k, f=o["f"], v=v, ret=r, out=y or [])
        elif k == "Own":
            r, y = attempt(lambda: ints(as_vec("ray", lm.array(o["v"]))))
            emit(op=k, v=o["v"], ret=r, out=y or [])
        elif k == "Names":
            def names():
                a = lm.registered_components()
                b = []
                lm.comp.foreach_registered(lambda n: b.append(n))
                return len(set(a)), sorted(a) == sorted(b) and len(set(a)) == len(a) and "renderer::vtkeep" in a and "film::bitmap" in a
            r, y = attempt(names)
            emit(op=k, ret=r, n=y[0] if y else 0, same=y[1] if y else False)
        elif k == "Film":
            r, film = attempt(lambda: lm.load_film("film", "bitmap", {"w": o["w"], "h": o["h"]}))
            z = film.size()
            emit(op=k, w=o["w"], h=o["h"], ret=r, size=[z.w, z.h], num=film.num_pixels())
        elif k == "Pixel":
            r, _ = attempt(lambda: film.set_pixel(o["x"], o["y"], np.array(o["v"], dtype=float)))
            emit(op=k, x=o["x"], y=o["y"], v=o["v"], ret=r)
        elif k == "Buffer":
            r, b = attempt(lambda: [[[int(y) for y in p] for p in q] for q in np.array(film.buffer())])
            emit(op=k, ret=r, out=b or [])
        else:
            raise KeyError(k)


# ----------------------------------------------------------------------- components of Python
BORN, DIED = [], []
COUNT = [0]


def tex_class(c):
    class T(lm.Texture):
        def __init__(self):
            lm.Texture.__init__(self)
            COUNT[0] += 1
            self.vid = COUNT[0]
            self.val = -1
            self.cls = c
            BORN.append(self.vid)
            weakref.finalize(self, DIED.append, self.vid)

        def construct(self, prop):
            if prop["fail"]:
                raise ValueError("no")
            self.val = prop["v"]

        def eval(self, t):
            return np.array([self.val, self.val, float(self.cls)], dtype=float)

        def save(self):
            return str(self.val)

        def load(self, data):
            v = int(data)
            if v == 13:
                raise ValueError("poison")
            self.val = v
    return T


def s_world(ops):
    lm.init()
    classes = {1: tex_class(1), 2: tex_class(2)}
    uv = np.array([0., 0.])
    held = {}
    geom = lm.PointGeometry.make_on_surface(np.array([0., 0., 0.]), np.array([0., 0., 1.]), np.array([0., 0., 1.]), uv)
    path = "state"

    def value(o):
        y = lm.Texture.eval(o, uv)
        return {"i": o.vid, "val": int(y[0]) if y[0] == y[1] else -2, "cls": int(y[2])}

    def look():
        names = []
        for n in ("a", "b"):
            o = lm.get_texture("$.assets." + n)
            if o is None:
                continue
            g = lm.get("$.assets." + n)
            z = value(o)
            if g is not o:
                z["i"] = -1
            names.append(dict(z, n=n, key=o.key(), loc=o.loc()))
        m = lm.get_material("$.assets.m")
        mv = []
        if m is not None:
            y = m.reflectance(geom)
            mv = [int(y[0]) if y[0] == y[1] else -2]
        return {"names": names, "vars": [dict(value(o), x=x) for x, o in sorted(held.items())], "m": mv}

    for o in ops:
        k = o["op"]
        e = {}

        def do():
            if k == "Reg":
                lm.Texture.reg(classes[o["c"]], "texture::" + o["k"])
            elif k == "Unreg":
                lm.Texture.unreg("texture::" + o["k"], "")
            elif k == "Load":
                p = {"v": o["v"], "fail": o["fail"]}
                t = lm.load_texture(o["n"], o["k"], p) if o.get("how", 0) == 0 else lm.load_texture(o["n"], o["k"], **p) if o["how"] == 1 else lm.assets().load_texture(o["n"], o["k"], p) if o["how"] == 2 else lm.load(o["n"], "texture::" + o["k"], p)
                if t is None:
                    return "none"
                e["same"] = t is lm.get_texture("$.assets." + o["n"])
            elif k == "Create":
                t = lm.Texture.create("texture::" + o["k"], "", {"v": o["v"], "fail": o["fail"]})
                if t is None:
                    return "none"
                held[o["x"]] = t
            elif k == "Hold":
                t = lm.get_texture("$.assets." + o["n"])
                if t is None:
                    held.pop(o["x"], None)
                else:
                    held[o["x"]] = t
            elif k == "Drop":
                held.pop(o["x"], None)
            elif k == "Reset":
                lm.reset()
            elif k == "Save":
                lm.save_state_to_file(path)
            elif k == "LoadState":
                lm.load_state_from_file(path)
            elif k == "Material":
                lm.load_material("m", "diffuse", {"mapKd": "$.assets." + o["n"]})
            else:
                raise KeyError(k)
        r, q = attempt(do)
        r = q or r
        seen = look()
        gc.collect()
        e.update(o)
        e.update(seen)
        b, d = sorted(BORN), list(DIED)
        BORN.clear(); DIED.clear()
        emit(**dict(e, ret=r, born=b, died=d))


# --------------------------------------------------------------------------- loops of Python
def s_loop(ops):
    lm.init()
    main = threading.get_ident()
    ctr = [0]
    for o in ops:
        if o["op"] == "Init":
            lm.parallel.init("openmp", {"num_threads": o["nt"], "progress_update_interval": 1})
            emit(op="Init", cfg=o["nt"], hw=os.cpu_count(), ivl=1, nt=lm.parallel.num_threads())
        else:
            ctr[0] += 1
            lid = ctr[0]
            bad = set(o["throws"])

            def f(i, t):
                emit(op="B", id=lid, i=i, t=t, m=threading.get_ident() == main, top=True)
                for _ in range(o["work"]):
                    sum(range(20))
                if i in bad:
                    emit(op="X", id=lid, i=i, t=t, x="s%d" % i)
                    raise ValueError("s%d" % i)
                emit(op="E", id=lid, i=i, t=t)
            emit(op="LoopStart", id=lid, n=o["n"])
            try:
                lm.parallel.foreach(o["n"], f)
                x = "ok"
            except ValueError as ex:
                x = str(ex)
            except Exception as ex:
                x = "other " + type(ex).__name__
            emit(op="LoopReturn", id=lid, out=x)


# ------------------------------------------------------------------- functions of Python
def enc(x):
    if x is None: return {"t": "none", "v": []}
    if isinstance(x, bool): return {"t": "b", "v": x}
    if isinstance(x, int): return {"t": "i", "v": x}
    if isinstance(x, float): return {"t": "f", "v": int(x)}
    if isinstance(x, str): return {"t": "s", "v": x}
    if isinstance(x, np.ndarray): return {"t": "m" if x.ndim == 2 else "v", "v": ints(x)}
    if isinstance(x, lm.PointGeometry): return {"t": "g", "v": ints(x.p) + ints(x.n)}
    if isinstance(x, lm.Ray): return {"t": "r", "v": ints(x.o) + ints(x.d)}
    if isinstance(x, lm.SceneInteraction): return {"t": "sp", "v": ints(x.geom.p)}
    if isinstance(x, dict): return {"t": "j", "v": x["n"]}
    return {"t": "other " + type(x).__name__, "v": []}


def dec(a):
    t, v = a["t"], a["v"]
    fl = lambda y: np.array(y, dtype=float)
    if t == "none": return None
    if t in ("b", "i", "s"): return v
    if t == "f": return float(v)
    if t in ("v", "m"): return fl(v)
    if t == "g":
        g = lm.PointGeometry(); g.p = fl(v[:3]); g.n = fl(v[3:])
        return g
    if t == "r": return lm.Ray(fl(v[:3]), fl(v[3:]))
    if t == "sp":
        q = lm.SceneInteraction(); g = lm.PointGeometry(); g.p = fl(v); q.geom = g
        return q
    if t == "j": return {"n": v}
    if t == "rng": return lm.Rng(1)
    raise KeyError(t)


def s_dispatch(ops):
    lm.init()
    log, ans, objs = [], [None], {}

    def method(m, skip):
        def f(self, *args):
            log.append({"o": self.oid, "m": m, "args": [enc(x) for x in args[skip:]]})
            if ans[0]["t"] == "raise":
                raise ValueError("no")
            return dec(ans[0])
        return f
    for n, o in enumerate(ops):
        if o["op"] == "Make":
            def mk():
                base = getattr(lm, o["iface"])
                cls = type("C%d" % n, (base,), {m: method(m, 1 if m == "eval_transmittance" else 0) for m in o["has"]})
                key = "%s::vt%d" % (o["iface"].lower(), n)
                if o["via"] == 0:
                    objs[o["o"]] = cls()
                elif o["via"] == 1:
                    base.reg(cls, key)
                    objs[o["o"]] = base.create(key, "", {})
                else:
                    base.reg(cls, key)
                    objs[o["o"]] = getattr(lm, "load_" + o["iface"].lower())("o%d" % o["o"], "vt%d" % n, {})
                objs[o["o"]].oid = o["o"]
            r, _ = attempt(mk)
            emit(**dict(o, ret=r))
        else:
            ans[0] = o["ans"]
            x = objs[o["o"]]
            pre = [dec({"t": "rng", "v": 0})] if o["m"] == "eval_transmittance" else []
            # the library's function, which ends in the object's
            r, y = attempt(lambda: enc(getattr(getattr(lm, o["iface"]), o["m"])(x, *pre, *[dec(a) for a in o["args"]])))
            emit(**dict(o, ret=r, res=y or enc(None), got=list(log)))
            log.clear()


SUITES = {"py_dispatch": s_dispatch, "py_bridge": s_bridge, "py_world": s_world, "py_loop": s_loop}


def main():
    global FD
    lines = [x for x in open(src) if x.strip()]
    base = os.environ["VT_SCRATCH"]
    workers = []
    for w in range(jobs):
        wp = os.fork()
        if wp:
            workers.append(wp)
            continue
        with open("%s.%d" % (out, w), "w") as of:
            for i in range(w, len(lines), jobs):
                s = json.loads(lines[i])
                sd = os.path.join(base, "s%d" % i)
                rd, wr = os.pipe()
                c = os.fork()
                if c == 0:
                    os.close(rd)
                    FD = wr
                    os.makedirs(sd)
                    os.chdir(sd)
                    nul = os.open("/dev/null", os.O_RDWR)
                    for q in (0, 1, 2):
                        os.dup2(nul, q)
                    resource.setrlimit(resource.RLIMIT_AS, (3900 << 20, 3900 << 20))
                    signal.alarm(timeout)
                    rc = 0
                    try:
                        SUITES[suite](s["ops"])
                    except BaseException as e:
                        rc = 9
                        emit(op="HarnessError", what=repr(e)[:300])
                    os._exit(rc)
                os.close(wr)
                buf = b""
                while True:
                    d = os.read(rd, 1 << 16)
                    if not d:
                        break
                    buf += d
                os.close(rd)
                _, st = os.waitpid(c, 0)
                ev = []
                for ln in buf.decode(errors="replace").splitlines():
                    try:
                        ev.append(json.loads(ln))
                    except ValueError:
                        pass
                if os.WIFSIGNALED(st):
                    sig = os.WTERMSIG(st)
                    ev.append({"op": "Hang" if sig == signal.SIGALRM else "Crash", "sig": sig})
                elif os.WEXITSTATUS(st) not in (0, 9):
                    ev.append({"op": "Exit", "rc": os.WEXITSTATUS(st)})
                of.write(json.dumps({"id": s["id"], "ev": ev}) + "\n")
                shutil.rmtree(sd, ignore_errors=True)
        os._exit(0)
    bad = 0
    for p in workers:
        _, st = os.waitpid(p, 0)
        bad += st != 0
    sys.exit(7 if bad else 0)


main()
