import common_transport as T
import units


def check(c):
    c.build(units.UNITS, plugins=units.plugins())
    c.model_check("MCTransport", T.MODEL % c.pick((2, 2, 2, 2, 4), (2, 3, 3, 3, 5)), "estimators on all discrete scenes of the given size")
    spp = c.pick(1500, 30000)
    tr = T.judge(c, T.known_scenes(c.rng, spp, c.thorough), "images that are known")
    c.corrupt_check(T.TRACE, tr, T.corrupt)
    T.judge(c, T.agreeing_scenes(c.rng, spp, c.thorough), "one image by all renderers")
    T.judge(c, T.media_scenes(c.rng, spp, c.thorough), "participating media")
    c.assumptions += ["images are estimates: deviations below five standard errors of both estimates are not seen"]
