import common_sampling as S
import units


def check(c):
    c.build(units.UNITS, plugins=units.plugins())
    cfg = "CONSTANTS K = %d HalfHeight = %d HalfWidth = %d\nSPECIFICATION Spec\n"
    for k, h, w in c.pick([(4, 1, 1), (3, 1, 2)], [(8, 1, 1), (7, 2, 3), (5, 3, 1)]):
        c.model_check("MCCamera", cfg % (k, h, w) + "INVARIANT RoundTrip Outside Behind Oriented\nPROPERTY Steps\nCHECK_DEADLOCK FALSE\n", "all orientations by axes, all raster points")
    bs = c.behaviours("MCCamera", cfg % (1, 1, 1) + "CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n", "orientations of a camera")
    tr = c.judge("sampling", S.TRACE, S.camera_sessions(c.rng, bs, c.thorough), "cameras", timeout=240)
    c.corrupt_check(S.TRACE, tr, S.corrupt)
