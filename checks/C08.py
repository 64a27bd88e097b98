import common_loop as L
import units


def check(c):
    c.build(units.UNITS, plugins=units.plugins())
    L.model(c, c.pick([(2, 3, 1, [], False), (2, 3, 2, [1], False), (3, 3, 1, [0, 2], False), (2, 2, 1, [], True), (1, 3, 2, [1], False)],
                      [(2, 5, 2, [], False), (3, 4, 1, [], False), (3, 4, 2, [0, 2], False), (3, 3, 1, [1], True), (1, 5, 2, [2], False), (4, 4, 1, [], False)]))
    ss = L.schedules(c, c.pick([(2, 4, 1, [], False), (2, 3, 1, [1], False), (3, 3, 1, [], False), (3, 3, 1, [0, 2], False), (2, 3, 1, [], True)],
                               [(2, 5, 1, [], False), (2, 4, 1, [1], False), (3, 4, 1, [], False), (3, 4, 1, [0, 2], False), (4, 4, 1, [], False), (2, 3, 1, [], True)]), c.pick(60, 1500))
    tr = c.judge("loop", L.TRACE, ss, "schedules of the specification forced on the real loop", repeat=False)
    c.corrupt_check(L.TRACE, tr, L.corrupt)
    c.judge("loop", L.TRACE, L.meets(c, c.pick(24, 200)), "all configured threads at work; large loops", jobs=2, repeat=False)
    tr = c.judge("loop", L.TRACE, L.loops(c, c.pick(500, 10000)), "free-running loops from one or several threads, with failures", repeat=False)
    c.corrupt_check(L.TRACE, tr, L.corrupt)
    c.assumptions += ["events are ordered by the time the callbacks log them"]
