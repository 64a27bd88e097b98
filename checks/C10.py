import common_loop as L
import units


def check(c):
    c.build(units.UNITS, plugins=units.plugins())
    L.model(c, c.pick([(2, 3, 1, [], False), (3, 3, 1, [1], False)], [(2, 5, 2, [], False), (3, 4, 1, [1], False)]))
    tr = c.judge("loop", L.TRACE, L.schedulers(c, c.pick(700, 12000)), "scheduler runs under a virtual clock", repeat=False)
    c.corrupt_check(L.TRACE, tr, L.corrupt)
    c.judge("loop", L.TRACE, L.bigs(c, c.pick(60, 600)), "sample numbers beyond 32 bits", repeat=True)
    c.assumptions += ["the clock of the process is replaced by a virtual one while schedulers run"]
