import units

TRACE = "LifeTrace"
MODEL = "SPECIFICATION Spec\nCONSTANTS K = %d\nINVARIANTS Afresh Sound\n"
GEN = "SPECIFICATION Spec\nCONSTANTS K = %d\nINVARIANTS Emit\n"


def corrupt(t):
    for e in reversed(t["ev"]):
        if e["op"] == "Look":
            e["names"] = e["names"] + ["z"]
            return t
    return None


def session(rng, n):
    ops = []
    for _ in range(n):
        k = rng.random()
        ops.append({"op": "Init"} if k < .25 else {"op": "Shutdown"} if k < .4 else {"op": "Reset"} if k < .5 else {"op": "Load", "n": rng.choice("abcde")} if k < .65 else
                   {"op": "Save", "to": rng.choice(["good", "full", "nodir", "dir"])} if k < .75 else
                   {"op": "SubInit", "x": rng.choice(["log", "par", "pro", "obj"]), "k": rng.randint(1, 9)} if k < .9 else {"op": "SubOff", "x": rng.choice(["log", "par", "pro", "obj"])})
    return {"ops": ops}


def check(c):
    c.build(units.UNITS, plugins=units.plugins())
    c.model_check("MCLife", MODEL % c.pick(4, 6), "all histories of starting and stopping")
    b = c.behaviours("MCLife", GEN % c.pick(3, 4), "histories")
    tr = c.judge("life", TRACE, [{"ops": x} for x in b], "histories of the specification")
    c.corrupt_check(TRACE, tr, corrupt)
    c.judge("life", TRACE, [session(c.rng, c.rng.randint(4, 20)) for _ in range(c.pick(300, 5000))], "longer histories")
