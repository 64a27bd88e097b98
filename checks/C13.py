import common_scene as S
import units


def check(c):
    c.build(units.UNITS, plugins=units.plugins())
    for nt, w in c.pick([(0, 2), (1, 2), (3, 2), (4, 3)], [(0, 3), (1, 3), (4, 2), (4, 3), (5, 3)]):
        c.model_check("MCBvh", "CONSTANTS NT = %d W = %d\nSPECIFICATION Spec\nINVARIANT Fits Partition\nPROPERTY Completes\nCHECK_DEADLOCK FALSE\n" % (nt, w), "construction over %d triangles by %d workers" % (nt, w))
    tr = c.judge("scene", S.TRACE, S.soups(c, c.pick(160, 1500), [1, 2, 3, 6, 10, 20], 40), "rays in small scenes")
    c.corrupt_check(S.TRACE, tr, S.corrupt)
    c.judge("scene", S.TRACE, S.soups(c, c.pick(16, 150), [60, 150], 60), "rays in larger scenes")
    c.judge("scene", S.TRACE, S.graphs(c, c.pick(200, 2500), rays=12), "rays in transformed and instanced scenes")
    c.judge("scene", S.TRACE, S.boxes(c, c.pick(40, 400), 100), "rays and boxes")
    c.judge("scene", S.TRACE, S.tiles(c, c.pick(8, 40)), "tiles of widely different sizes")
    c.assumptions += ["positions, origins and directions are small integers, for which hits are decided exactly; a hit on the boundary of a triangle or of the range may be reported or not"]
