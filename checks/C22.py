import common_sampling as S
import units


def check(c):
    c.build(units.UNITS, plugins=units.plugins())
    for n1, n2 in ((2, 3), (3, 2), (2, 5)):
        c.model_check("MCOptics", "CONSTANTS N1 = %d N2 = %d MaxKt = 4 Steps = %d\nSPECIFICATION Spec\nINVARIANT ScaleOfPlace TotalOnDense Reversible\nCHECK_DEADLOCK FALSE\n" % (n1, n2, c.pick(5, 8)),
                      "paths across interfaces of indices %d and %d" % (n1, n2))
    tr = c.judge("sampling", S.TRACE, S.law_sessions(c.rng, c.thorough), "laws of scattering", timeout=240)
    c.corrupt_check(S.TRACE, tr, S.corrupt)
