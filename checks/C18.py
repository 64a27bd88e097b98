import common_sampling as S
import units


def check(c):
    c.build(units.UNITS, plugins=units.plugins())
    cfg = "CONSTANTS MaxLen = %d MaxW = %d Rows = %d\nSPECIFICATION Spec\nINVARIANT UniqueOwner NeverWeightless Proportional TwoStages\nCHECK_DEADLOCK FALSE\n"
    for n, w, r in c.pick([(4, 2, 2)], [(4, 3, 2), (6, 2, 3)]):
        c.model_check("MCChoice", cfg % (n, w, r), "choosing an entry in proportion to its weight, in one and two stages")
    bs = c.behaviours("MCChoice", "CONSTANTS MaxLen = 4 MaxW = %d Rows = 2\nSPECIFICATION Spec\nCONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n" % c.pick(2, 3), "weights of a distribution")
    tr = c.judge("sampling", S.TRACE, S.dist_sessions(c.rng, [b["w"] for b in bs], c.thorough), "discrete distributions", timeout=240)
    c.corrupt_check(S.TRACE, tr, S.corrupt)
    tr = c.judge("sampling", S.TRACE, S.component_sessions(c.rng) + S.selection_sessions(c.rng), "components of materials and lights of scenes", timeout=240)
    c.corrupt_check(S.TRACE, tr, S.corrupt)
