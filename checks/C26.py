import copy
import common_transport as T
import units


def scenes(rng, n, rounds):
    """scenes with every kind of endpoint and surface"""
    out = []
    area = [T.A("l", "light::area", {"Ke": [8, 6, 4], "mesh": T.L("q")}), T.A("l2", "light::area", {"Ke": [2, 5, 9], "mesh": T.L("q")})]
    lamp = T.P("l", T.T(.3, -.5, 5, .9, .7, 1, flip=True), mesh="q", material="k", light="l")
    lamp2 = T.P("l2", [[0, 0, 1.5, -4], [.6, 0, 0, -1], [0, .5, 0, 3]], mesh="q", material="k", light="l2")
    lights = {"area": (area, [lamp]), "areas": (area, [lamp, lamp2]),
              "point": ([T.A("pl", "light::point", {"Le": [20, 30, 10], "position": [1.5, -2.5, 5]})], [T.P("pl", light="pl")]),
              "distant": ([T.A("dl", "light::directional", {"Le": [.5, .8, 1], "direction": [.2, .5, -1]})], [T.P("dl", light="dl")]),
              "even": ([T.A("e", "light::envconst", {"Le": [1, .8, .6]})], [T.P("e", light="e")]),
              "env": ([T.A("e", "light::env", {"path": "env.ppm", "rot": 30, "scale": 2, "flip": False})], [T.P("e", light="e")])}
    files = [T.ppm(4, 2, [[rng.choice([60, 150, 220]) for _ in range(3)] for _ in range(8)])]
    for r in range(rounds):
        for names in (["area"], ["areas"], ["point", "area"], ["distant", "area"], ["even"], ["env", "area"], ["point", "distant", "even"]):
            k = rng.randrange(3)
            if k == 0:
                mats = sum([T.some_material("m%d" % i, rng) for i in range(3)], [])
            elif k == 1:
                mats = [T.A("m0", "material::mirror", {}), T.A("m2", "material::glass", {"Ni": 1.5}), T.diff("m1", rng)]
            else:
                mats = [T.diff("m0", rng), T.A("m1", "material::mask", {}), T.A("x", "material::mirror", {}),
                        T.A("m2", "material::constant_weight_mixture_" + rng.choice(["marginalized", "rr"]), [{"material": T.L("m0"), "weight": .5}, {"material": T.L("x"), "weight": .25}, {"material": T.L("m1"), "weight": .25}])]
            a, p = T.stage(rng, mats, smooth=k == 0)
            a, p = list(a), list(p)
            for nm in names:
                have = {x["name"] for x in a}
                a += [x for x in lights[nm][0] if x["name"] not in have]
                p += lights[nm][1]
            out.append({"assets": a, "prims": p, "law": {"kind": "none"}, "files": files, "ops": [{"op": "Paths", "seed": rng.randrange(1 << 20), "hi": rng.choice([4, 5, 6]), "n": n, "per": 300}]})
    # a lamp with interpolated normals, and a closed room
    a, p = T.stage(rng, [T.diff("m%d" % i, rng) for i in range(3)])
    out.append({"assets": [T.A("b", "mesh::raw", T.box()), T.A("m", "material::diffuse", {"Kd": [.5, .25, .75]}), T.A("l", "light::area", {"Ke": [1, 2, 3], "mesh": T.L("b")}), T.cam([.2, -.1, .1], [0, 0, -1], up=[0, 1, 0])],
                "prims": [T.P("c", camera="cam"), T.P("w", mesh="b", material="m", light="l")], "law": {"kind": "none"}, "ops": [{"op": "Paths", "seed": rng.randrange(1 << 20), "hi": 6, "n": n, "per": 300}]})
    return out


def corrupt(t):
    for e in t["ev"]:
        if e["op"] == "Paths" and e["can"]:
            e["can"][-1 if e["v"][-1]["d"] else 0] = not e["can"][-1 if e["v"][-1]["d"] else 0]
            return t
    return None


def corrupt2(t):
    for e in t["ev"]:
        if e["op"] == "Paths" and e["mis"]:
            e["mis"][0][0] += 3000
            return t
    return None


def check(c):
    c.build(units.UNITS, plugins=units.plugins())
    c.model_check("MCTransport", T.MODEL % c.pick((2, 2, 2, 2, 4), (2, 3, 3, 3, 5)), "estimators on all discrete scenes of the given size")
    tr = c.judge("transport", T.TRACE, scenes(c.rng, c.pick(3000, 20000), c.pick(10, 24)), "paths of two subpaths", timeout=300)
    c.corrupt_check(T.TRACE, tr, corrupt)
    c.corrupt_check(T.TRACE, tr, corrupt2)
    c.extra["kinds_of_paths"] = len({str(e["v"]) for t in tr for e in t["ev"] if e["op"] == "Paths"})
