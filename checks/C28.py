import common_py as T
import units


def check(c):
    c.build(units.UNITS, plugins=units.plugins())
    c.build_py()
    c.model_check("MCBridge", T.B_MODEL % c.pick(1, 2), "all small values, all views of a small buffer")
    bs = c.behaviours("MCBridge", T.B_GEN % c.pick(1, 2), "values and views")
    ops, seen = [], set()
    for b in bs:
        x = b["x"]
        if repr(x) not in seen:
            seen.add(repr(x))
            rs = T.ROUTES if not c.thorough or len(seen) % 8 == 0 else c.rng.sample(T.ROUTES, 1)
            ops += [T.send(q, x) for q in rs]
        if repr(b["a"]) not in seen:
            seen.add(repr(b["a"]))
            q, n = c.rng.choice(T.VEC)
            ops.append({"op": "Vec", "route": q, "n": n, "a": b["a"]})
    c.rng.shuffle(ops)
    tr = c.judge("py_bridge", T.BRIDGE, T.chunks(ops, 40), "values and views of the specification")
    c.corrupt_check(T.BRIDGE, tr, T.corrupt_bridge)
    c.judge("py_bridge", T.BRIDGE, T.mixed(c.rng, c.pick(500, 8000)), "larger values")
