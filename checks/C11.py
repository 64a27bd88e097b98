import common_film as F
import units


def check(c):
    c.build(units.UNITS, plugins=units.plugins())
    for T in c.pick([2, 3], [2, 3, 4]):
        c.model_check("MCFilm", 'CONSTANTS T = %d Kinds = {%s}\nSPECIFICATION Spec\nINVARIANT Linearizable Sound\nPROPERTY Completes\nCHECK_DEADLOCK FALSE\n'
                      % (T, '"splat", "upd"' if T == 4 else '"set", "splat", "upd"'), "compare-and-exchange loop with %d threads" % T)
    bs = c.behaviours("MCFilm", 'CONSTANTS T = 2 Kinds = {"set", "splat", "upd"}\nSPECIFICATION Spec\nCONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n', "schedules of two threads on a pixel")
    bs += c.behaviours("MCFilm", 'CONSTANTS T = 3 Kinds = {"splat", "upd"}\nSPECIFICATION Spec\nCONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n', "schedules of three threads on a pixel")
    c.rng.shuffle(bs)
    tr = c.judge("film", F.TRACE, F.gated(c, bs[:c.pick(300, 3000)]), "schedules of the specification forced on a pixel", repeat=False)
    c.corrupt_check(F.TRACE, tr, F.corrupt)
    c.judge("film", F.TRACE, F.histories(c, c.pick(500, 8000)), "sequential histories of film operations")
    c.judge("film", F.TRACE, F.files(c, c.pick(150, 2000)), "image files")
    tr = c.judge("film", F.TRACE, F.par(c, c.pick(300, 5000)), "concurrent programs", repeat=False, jobs=3)
    c.corrupt_check(F.TRACE, tr, F.corrupt)
    c.judge("film", F.TRACE, F.storm(c, c.pick(40, 300), c.pick(20000, 40000)), "contended splats", repeat=False, jobs=1)
    c.assumptions += ["pixel values are integers, which the film's floating-point arithmetic represents exactly"]
