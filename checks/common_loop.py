"""Parallel loops, progress reports and schedulers: spec/Loop.tla."""
import units
TRACE = "LoopTrace"


def cfg(T, N, ivl, thr, pthrow, keep, extra):
    return ("CONSTANTS T = %d N = %d IVL = %d Throwers = {%s} PThrow = %s Keep = %s\n" % (
        T, N, ivl, ", ".join(map(str, thr)), "TRUE" if pthrow else "FALSE", "TRUE" if keep else "FALSE")) + extra


def model(c, cases):
    for T, N, ivl, thr, pt in cases:
        c.model_check("MCLoop", cfg(T, N, ivl, thr, pt, False,
                      "SPECIFICATION Spec\nINVARIANT ReturnOk ProgressSane\nPROPERTY Refines Terminates\nCHECK_DEADLOCK FALSE\n"),
                      "loop algorithm refines Loop: %d threads, %d samples, interval %d, failing %s%s" % (T, N, ivl, thr, ", failing progress" if pt else ""))


def schedules(c, cases, limit):
    out = []
    for T, N, ivl, thr, pt in cases:
        bs = c.behaviours("MCLoop", cfg(T, N, ivl, thr, pt, True, "SPECIFICATION Spec\nCONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n"),
                          "schedules: %d threads, %d samples, failing %s" % (T, N, thr))
        c.rng.shuffle(bs)
        out += bs[:limit]
    ss = []
    for b in out:
        ss.append({"ops": [{"op": "Init", "nt": b["t"], "ivl": b["ivl"]},
                           {"op": "Loop", "n": b["n"], "sched": b["sched"], "throws": b["throws"], "pthrow": b["pthrow"],
                            "thread": c.rng.choice(["main", "main", "other"])}]})
    return ss


def loops(c, n):
    r = c.rng
    ss = []
    for _ in range(n):
        ops = [{"op": "Init", "nt": r.choice([1, 2, 3, 4, 7, 8, 0, -1, -3, -100]), "ivl": r.choice([1, 1, 2, 3, 10, 100])}]
        for _ in range(r.randint(1, 5)):
            if r.random() < .2:
                ops.append({"op": "Init", "nt": r.choice([1, 2, 3, 5, 16, 0, -2]), "ivl": r.choice([1, 2, 5, 100])})
            k = r.choice([0, 1, 2, 3, 5, 8, 13, 30, 60])
            o = {"op": "Loop", "n": k, "thread": r.choice(["main", "main", "other", "several"]), "spin": r.choice([0, 0, 50, 1000])}
            if r.random() < .3 and k:
                o["throws"] = r.sample(range(k), min(k, r.choice([1, 1, 2, 3])))
            if r.random() < .08:
                o["pthrow"] = True
            if r.random() < .1 and k <= 8 and "throws" not in o:
                o["inner"] = r.choice([0, 1, 4])
            ops.append(o)
        ss.append({"ops": ops})
    return ss


def meets(c, n):
    r = c.rng
    ss = []
    for _ in range(n):
        nt = r.choice([1, 2, 3, 4, 5, 8, 11, 0, -1])
        ss.append({"ops": [{"op": "Init", "nt": nt, "ivl": 1}, {"op": "Meet", "thread": r.choice(["main", "other"])},
                           {"op": "Bulk", "n": r.choice([0, 1, 17, 1000, 30011]), "thread": r.choice(["main", "other"])},
                           {"op": "Meet", "thread": r.choice(["main", "other"])}]})
    return ss


def ptree(r, depth=0):
    """A random composition of reporters: (type, prop, leaves with the delays above each, in order)."""
    x = r.random()
    if depth >= 3 or x < .35:
        return "vtrec", {"r": 0}, [[]]
    if x < .7:
        kids = [ptree(r, depth + 1) for _ in range(r.randint(0 if depth else 1, 3))]
        return "mux", [{"progress::" + t: p} for t, p, _ in kids], [l for _, _, ls in kids for l in ls]
    d = r.choice([0, 1, 10, 100])
    t, p, ls = ptree(r, depth + 1)
    return "delay", {"delay": d, "progress": {"progress::" + t: p}}, [[d] + l for l in ls]


def number(t, p, n):
    if t == "vtrec":
        n[0] += 1
        p["r"] = n[0]
    elif t == "mux":
        for e in p:
            for k, v in e.items():
                number(k[len("progress::"):], v, n)
    else:
        for k, v in p["progress"].items():
            number(k[len("progress::"):], v, n)


def calls(r, n, steps):
    out, t, v, mode = [], False, 0, None
    for _ in range(n):
        x = r.random()
        dt = r.choice(steps)
        if mode is None or x < .08:
            mode = r.choice(["time", "samples"])
            v = 0
            out.append({"call": "start", "dt": dt, "a": r.randint(1, 5000), "time": mode == "time"})
        elif x < .15:
            out.append({"call": "end", "dt": dt, "a": 0})
        else:
            v += r.randint(0, 5)
            k = "time" if (mode == "time") != (r.random() < .15) else "update"
            out.append({"call": k, "dt": dt, "a": v})
    return out


def reporters(c, n):
    r = c.rng
    ss = []
    for _ in range(n):
        t, p, ls = ptree(r)
        if not ls:
            continue
        number(t, p, [0])
        ss.append({"ops": [{"op": "Direct", "type": t, "prop": p, "leaves": ls, "calls": calls(r, r.randint(5, 40), [0, 0, 1, 2, 9, 10, 11, 50, 100, 101, 300])}]})
    for _ in range(n // 2):
        ss.append({"ops": [{"op": "Plain", "calls": calls(r, r.randint(5, 40), [0, 1, 100, 250, 499, 500, 501, 600])}]})
    return ss


def schedulers(c, n, throws=.25, ptypes=True):
    r = c.rng
    ss = []
    for _ in range(n):
        ops = [{"op": "Init", "nt": r.choice([1, 1, 2, 3, 4, 8]), "ivl": r.choice([1, 1, 2, 5, 100])}]
        for _ in range(r.randint(1, 3)):
            kind = r.choice(["spp_sample", "spp_time", "spi_sample", "spi_time"])
            w, h = r.randint(1, 5), r.randint(1, 4)
            s = {"kind": kind, "npix": w * h, "spp": 0, "per": 0, "limit": 0, "d": 0}
            if kind == "spp_sample":
                s["spp"] = r.choice([0, 1, 2, 3, 5])
            elif kind == "spi_sample":
                s["spp"] = r.choice([0, 1, 2, 7, 40])
            elif kind == "spi_time":
                s["per"] = r.choice([1, 2, 9, 20])
            if kind.endswith("time"):
                s["d"] = r.choice([1, 2, 5])
                size = (w * h if kind == "spp_time" else s["per"]) * s["d"]
                k = r.choice([1, 1, 2, 3, 5])          # passes
                # the limit lies strictly between two multiples of the pass time, or below the first
                s["limit"] = r.randint((k - 1) * size, k * size - 1)
                if size > 1 and s["limit"] % size == 0:
                    s["limit"] += 1 if k * size - 1 > s["limit"] else 0
                if s["limit"] % size == 0 and s["limit"] > 0:
                    s["d"], s["limit"] = s["d"] * 2, s["limit"] * 2 + 1
            o = {"op": "Sched", "s": s, "w": w, "h": h, "thread": r.choice(["main", "main", "other"])}
            if r.random() < throws:
                if kind.startswith("spp"):
                    o["throws"] = [[r.randrange(w * h), r.choice([0, 0, 1, 2])] for _ in range(r.randint(1, 2))]
                else:
                    o["throws"] = [[0, r.choice([0, 1, 5, 11])] for _ in range(r.randint(1, 2))]
            if ptypes and r.random() < .4:
                o["ptype"] = "mux"
                o["pprop"] = [{"progress::vtrec": {"r": "a"}}, {"progress::vtrec": {"r": "b"}}, {"progress::delay": {"delay": 3, "progress": {"progress::vtrec": {"r": "c"}}}}]
            ops.append(o)
        ss.append({"ops": ops})
    return ss


def bigs(c, n):
    r = c.rng
    ss = []
    for _ in range(n):
        kind = r.choice(["spp", "spp", "spi"])
        spp = r.choice([1, 3, 1000, 65536, 99999, 1 << 31, (1 << 31) - 1, (1 << 32) + 7, 10 ** 10, 123456789012])
        w, h = (r.choice([1, 3, 640, 1920]), r.choice([1, 2, 480, 1080]))
        tot = spp * (1 if kind == "spi" else w * h)
        pick = [0, -1] + [r.randrange(tot) for _ in range(4)]
        ss.append({"ops": [{"op": "Big", "kind": kind, "w": w, "h": h, "spp": spp, "pick": pick}]})
    return ss


def corrupt(t):
    for e in reversed(t["ev"]):
        if e["op"] in ("E", "SE", "B", "SB"):
            e["t"] += 1
            return t
        if e["op"] == "DCall" and e["got"]:
            e["got"][0]["a"] += 1
            return t
        if e["op"] == "FCall" and e["got"]:
            e["got"].pop()
            return t
    return None
