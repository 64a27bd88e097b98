import units

TRACE = "LoggerTrace"
MODEL = "SPECIFICATION Spec\nCONSTANTS K = %d Msgs = {%s} Sevs = {%s}\nINVARIANTS Readable\nVIEW NoHist\n"
GEN = "SPECIFICATION Spec\nCONSTANTS K = %d Msgs = {%s} Sevs = {%s}\nINVARIANTS Emit\n"
SEV = {"Debug": -10, "Info": 10, "Warn": 20, "Err": 30, "Progress": 100, "ProgressEnd": 101}
TEXT = {1: "a", 2: "bbb", 3: "cc\nd", 4: ""}


def msg(rng, level, text, sev=None):
    stem = rng.choice(["f", "logger", "a_rather_long_name", "x.y"])
    return {"op": "Log", "level": level, "sev": SEV[level] if sev is None else sev, "msg": text, "line": rng.choice([1, 42, 1234, 123456]),
            "file": rng.choice(["", "/some/where/", "src/"]) + stem + ".cpp", "stem": stem}


def concrete(rng, b):
    out = []
    for o in b:
        if o["op"] == "Log":
            out.append(msg(rng, o["level"], TEXT[o["msg"]]))
        elif o["op"] == "Init":
            out.append({"op": "Init", "show": rng.random() < .8})
        else:
            out.append(dict(o))
    return {"ops": out}


WORDS = ["", "a", "long " * 60,  "two words", "x" * 40, "{}", "{0}%d", "tail  ", "  head", "1\n2", "l1\n\nl3\n", "\n", "\n\n", "end\n", "tab\there", "[I|x|y] z"]


def session(rng, n):
    ops = []
    if rng.random() < .8:
        ops.append({"op": "Init", "show": rng.random() < .7, "color": rng.random() < .5})
    scope = rng.random() < .3
    depth = 0
    for _ in range(n):
        k = rng.random()
        if k < .6:
            lv = rng.choice(list(SEV))
            t = rng.choice(WORDS)
            if lv.startswith("Progress"):
                t = t.replace("\n", "-")
            ops.append(msg(rng, lv, t, rng.choice([None, None, None, -50, 0, 5, 29, 99, 2000])))
        elif k < .75:
            if scope:
                d = 1 if depth == 0 or rng.random() < .5 else -1
                depth += d
                ops.append({"op": "Indent", "n": d, "scope": True})
            else:
                ops.append({"op": "Indent", "n": rng.choice([1, 1, 2, -1, -1, -2, 12, -7])})
        elif k < .87:
            ops.append({"op": "Severity", "n": rng.choice([-100, -10, 0, 5, 10, 20, 30, 31, 100, 1000])})
        elif k < .93:
            ops.append({"op": "Init", "show": rng.random() < .5, "scoped": rng.random() < .3})
        else:
            ops.append({"op": "Shutdown"})
    return {"ops": ops}


def storm(rng):
    ops = [{"op": "Init", "show": True}, {"op": "Indent", "n": rng.randint(0, 3)}, {"op": "Severity", "n": rng.choice([0, 20])}]
    t = rng.choice([2, 4, 8])
    k = rng.choice([2, 5])
    ms = []
    for i in range(t):
        q = []
        for j in range(k):
            tag = "%d.%d" % (i, j)
            m = msg(rng, rng.choice(["Info", "Warn", "Err"]), "\n".join("%s %d %s" % (tag, x, "z" * rng.choice([0, 5, 60])) for x in range(rng.choice([1, 1, 2, 3]))))
            m["time"] = ""
            q.append(m)
        ms.append(q)
    ops.append({"op": "Storm", "msgs": ms})
    ops.append(msg(rng, "Err", "after"))
    return {"ops": ops}


def corrupt(t):
    for e in reversed(t["ev"]):
        if e["op"] == "Log" and e["out"]:
            e["out"][-1]["x"] += "~"
            return t
    return None


def check(c):
    c.build(units.UNITS, plugins=units.plugins())
    c.model_check("MCLogger", MODEL % c.pick((5, "1,2,3,4", "20,1000"), (7, "1,2,3", "20,1000")), "all histories of messages, indentation and thresholds")
    b = c.behaviours("MCLogger", GEN % c.pick((3, "1,2,3,4", "20,1000"), (4, "1,2,3,4", "20,1000")), "histories")
    tr = c.judge("logger", TRACE, [concrete(c.rng, x) for x in b], "histories of the specification")
    c.corrupt_check(TRACE, tr, corrupt)
    c.judge("logger", TRACE, [session(c.rng, c.rng.randint(3, 25)) for _ in range(c.pick(500, 10000))], "longer histories")
    c.judge("logger", TRACE, [storm(c.rng) for _ in range(c.pick(60, 1000))], "messages of concurrent threads", repeat=False)
