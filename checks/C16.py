import common_obj as O
import units


def check(c):
    c.build(units.UNITS, plugins=units.plugins())
    cfg = 'CONSTANTS MaxCmds = %d Menu = "%s"\nSPECIFICATION Spec\n%s\nCHECK_DEADLOCK FALSE\n'
    inv = "INVARIANT NothingLost MaterialsExist UnderItsMaterial GroupsFilled\nPROPERTY Relative"
    for menu in ("index", "group"):
        c.model_check("MCObj", cfg % (c.pick(5, 6), menu, inv), "all files of the menu '%s'" % menu)
    bs = []
    for menu in ("index", "group"):
        b = c.behaviours("MCObj", cfg % (c.pick(3, 4), menu, "CONSTRAINT Emit"), "all short files of the menu '%s'" % menu)
        bs += b
        bs += c.behaviours("MCObj", cfg % (12, menu, "CONSTRAINT Emit"), "longer files of the menu '%s'" % menu, simulate=c.pick(150, 2000), depth=16)
    tr = c.judge("obj", O.TRACE, O.of_behaviours(c.rng, bs, False), "files of the model, plainly written")
    c.corrupt_check(O.TRACE, tr, O.corrupt)
    c.judge("obj", O.TRACE, O.of_behaviours(c.rng, c.rng.sample(bs, min(len(bs), c.pick(600, 6000))), True), "files of the model, freely written")
    c.judge("obj", O.TRACE, O.rich(c.rng, c.pick(500, 6000)), "files with materials, textures, lights and mistakes")
    c.judge("obj", O.TRACE, O.long_lines(c.rng), "long lines")
    plug = c.plugins["objloader_tinyobjloader"]
    ok = [b for b in bs if O.plain(b["cs"])]
    c.judge("obj", O.TRACE, [dict(t, loader=plug) for t in O.of_behaviours(c.rng, c.rng.sample(ok, min(len(ok), c.pick(500, 5000))), False)], "files of the model, loader of the plugin")
    c.judge("obj", O.TRACE, O.tiny(c.rng, c.pick(400, 4000), plug), "files with materials, loader of the plugin")
