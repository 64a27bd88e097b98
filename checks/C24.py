import common_sampling as S
import units


def check(c):
    c.build(units.UNITS, plugins=units.plugins())
    c.model_check("MCMedium", "CONSTANTS Cells = %d D = %d Q = %d Mutant = \"none\"\nSPECIFICATION Spec\nINVARIANT Transmittance Complete Composes NoVacuum\nCHECK_DEADLOCK FALSE\n" % c.pick((4, 3, 5), (5, 4, 6)),
                  "flights through cells of all densities")
    tr = c.judge("sampling", S.TRACE, S.medium_sessions(c.rng, c.thorough), "media and volumes", timeout=240)
    c.corrupt_check(S.TRACE, tr, S.corrupt)
