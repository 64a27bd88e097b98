import common_sampling as S
import units


def check(c):
    c.build(units.UNITS, plugins=units.plugins())
    mc = "SPECIFICATION Spec\nINVARIANT UnbiasedMean\nCONSTANTS Outcomes = %d Parts = %d Mutant = \"none\"\nCHECK_DEADLOCK FALSE\n"
    c.model_check("MCSampling", mc % c.pick((2, 4), (3, 3)), "estimators that choose a component and draw an outcome of it")
    tr = c.judge("sampling", S.TRACE, S.surface_sessions(c.rng, c.thorough), "directions at surfaces", timeout=240)
    c.corrupt_check(S.TRACE, tr, S.corrupt)
    c.judge("sampling", S.TRACE, S.light_sessions(c.rng, c.thorough), "endpoints, rays, positions and phase functions", timeout=240)
