import common_loop as L
import units


def check(c):
    c.build(units.UNITS, plugins=units.plugins())
    L.model(c, c.pick([(2, 3, 1, [], False), (2, 3, 2, [], False), (3, 3, 2, [1], False)], [(2, 5, 2, [], False), (3, 5, 1, [], False), (3, 4, 3, [2], False)]))
    tr = c.judge("loop", L.TRACE, L.reporters(c, c.pick(300, 6000)), "compositions of reporters under a virtual clock", repeat=True)
    c.corrupt_check(L.TRACE, tr, L.corrupt)
    tr = c.judge("loop", L.TRACE, L.schedulers(c, c.pick(300, 6000), throws=.35), "progress of scheduler runs", repeat=False)
    c.judge("loop", L.TRACE, L.loops(c, c.pick(200, 4000)), "progress of parallel loops", repeat=False)
    c.corrupt_check(L.TRACE, tr, L.corrupt)
    c.assumptions += ["the clock of the process is replaced by a virtual one while reporters and schedulers run"]
