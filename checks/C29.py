import common_py as T
import units


def check(c):
    c.build(units.UNITS, plugins=units.plugins())
    c.build_py()
    c.model_check("MCPyWorld", T.W_MODEL % c.pick(4, 5), "all short histories")
    bs = c.behaviours("MCPyWorld", T.W_GEN % c.pick(3, 4), "histories")
    n = c.pick(1500, 20000)
    if len(bs) > n:
        bs = c.rng.sample(bs, n)
    tr = c.judge("py_world", T.WORLD, [{"ops": b} for b in bs], "histories of the specification")
    c.corrupt_check(T.WORLD, tr, T.corrupt_world)
    c.judge("py_world", T.WORLD, T.world(c.rng, c.pick(600, 10000)), "longer histories")
    c.judge("py_loop", "LoopTrace", T.loops(c.rng, c.pick(80, 1000)), "loops with bodies of Python", repeat=False)
    c.model_check("MCDispatch", "SPECIFICATION Spec\nCONSTANT K = %d\nINVARIANTS Once Right Order\n" % c.pick(4, 5), "all short sequences of calls")
    tr = c.judge("py_dispatch", "DispatchTrace", T.dispatch(c.rng, c.pick(800, 10000)), "calls of functions of Python")
    c.corrupt_check("DispatchTrace", tr, T.corrupt_dispatch)
