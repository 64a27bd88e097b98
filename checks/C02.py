import common_tree as T
import common_zoo as Z


def check(c):
    T.run(c, "ref", 3, 4, {"replace": 0.75, "ops": {"Save": 0.5, "LoadSer": 0.5, "Reset": 0.05}})
    if c.violations and not c.thorough:
        return
    opt = {"lights": ("la", "lp", "ld"), "model": True, "medium": True, "env": True}
    ss = Z.from_spec(c, Z.ORDER, 1, opt, saves=False)
    c.judge("zoo", Z.TRACE, ss, "every replacement of a built-in component")
    ss = Z.scripts(c, c.pick(200, 4000), n_edits=10, fails=0, saves=.05)
    c.judge("zoo", Z.TRACE, ss, "random replacements of built-in components")
