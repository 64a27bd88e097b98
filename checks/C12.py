import common_scene as S
import units


def check(c):
    c.build(units.UNITS, plugins=units.plugins())
    for ln, mx in c.pick([(3, 4)], [(3, 4), (4, 4)]):
        c.model_check("MCScene", "CONSTANTS Len0 = %d MaxNodes = %d\nSPECIFICATION Spec\nINVARIANT Special PathCount InScene\nCHECK_DEADLOCK FALSE\n" % (ln, mx), "all histories of %d operations" % ln)
    bs = c.behaviours("MCScene", "CONSTANTS Len0 = 3 MaxNodes = 4\nSPECIFICATION Spec\nCONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n", "all histories of 3 operations")
    tr = c.judge("scene", S.TRACE, [S.from_model(c, h) for h in bs], "all histories of scene graph operations")
    c.corrupt_check(S.TRACE, tr, S.corrupt)
    bs = c.behaviours("MCScene", "CONSTANTS Len0 = 12 MaxNodes = 8\nSPECIFICATION Spec\nCONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n", "random behaviours", simulate=c.pick(100, 1500), depth=14)
    c.rng.shuffle(bs)
    bs = bs[:c.pick(2000, 40000)]
    c.judge("scene", S.TRACE, [S.from_model(c, h) for h in bs], "random behaviours of the specification")
    c.judge("scene", S.TRACE, S.graphs(c, c.pick(500, 6000), rays=2), "random scene graphs with models, instances, queries and state loads")
    c.assumptions += ["scene graphs without cycles; transforms and positions are integers, which the framework's arithmetic represents exactly"]
