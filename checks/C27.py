import common_picture as T
import units


def check(c):
    c.build(units.UNITS, plugins=units.plugins())
    c.model_check("MCPicture", T.MODEL % c.pick((1, 2, 4, 5), (2, 2, 4, 8)), "all small scenes of rectangles")
    bs = c.behaviours("MCPicture", T.GEN % (1, 1), "scenes of rectangles")
    ss = []
    for b in bs:
        for q in b["qs"]:
            q["pic"] = []
        for _ in range(c.pick(3, 10)):
            s = T.cast_session(c.rng, [dict(q, color=[c.rng.randrange(11) * 100 for _ in range(3)]) for q in b["qs"]]) if b["qs"] else None
            if s:
                ss.append(s)
    tr = c.judge("picture", T.TRACE, ss, "scenes of the specification")
    c.corrupt_check(T.TRACE, tr, T.corrupt)
    c.judge("picture", T.TRACE, T.casts(c.rng, c.pick(400, 8000)), "larger scenes")
