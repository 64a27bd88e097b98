import common_picture as T
import units


def check(c):
    c.build(units.UNITS, plugins=units.plugins())
    c.model_check("MCPicture", T.MODEL % c.pick((3, 3, 6, 3), (4, 4, 12, 5)), "all small pictures")
    bs = c.behaviours("MCPicture", T.GEN % c.pick((3, 3), (5, 5)), "shapes of pictures")
    shapes = {(b["p"]["w"], b["p"]["h"], b["p"]["c"], b["p"]["flip"]) for b in bs}
    rng = c.rng
    ss = [T.texture_session(rng, T.picture(rng, *s)) for s in sorted(shapes) for _ in range(c.pick(2, 6))]
    ss += [T.texture_session(rng, T.picture(rng, rng.randint(1, 40), rng.randint(1, 40), rng.randint(1, 4), rng.random() < .5), 100) for _ in range(c.pick(60, 2000))]
    tr = c.judge("picture", T.TRACE, T.several(rng, rng.sample(ss, len(ss))), "textures")
    c.corrupt_check(T.TRACE, tr, T.corrupt)
    c.judge("picture", T.TRACE, [T.refused(rng) for _ in range(c.pick(20, 100))], "files that are not pictures")
    ss = [T.env_session(rng, T.picture(rng, rng.randint(1, 13), rng.randint(1, 9), rng.randint(1, 4), rng.random() < .5)) for _ in range(c.pick(150, 3000))]
    tr = c.judge("picture", T.TRACE, T.several(rng, ss, 2), "environment maps")
    c.corrupt_check(T.TRACE, tr, T.corrupt)
