import common_props as P
import units


def check(c):
    c.build(units.UNITS, plugins=units.plugins())
    c.model_check("MCProps", P.MODEL % c.pick(2, 3), "all configurations near the base of each component")
    b1 = c.behaviours("MCProps", P.GEN % 1, "configurations with one deviation")
    b2 = c.behaviours("MCProps", P.GEN % c.pick(2, 3), "configurations with several deviations")
    tr = c.judge("zoo", P.TRACE, P.sessions(c.rng, b1, 1000), "one deviation")
    c.corrupt_check(P.TRACE, tr, P.corrupt)
    c.judge("zoo", P.TRACE, P.sessions(c.rng, b2, 60, c.pick(180, None)), "several deviations")
