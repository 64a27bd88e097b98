import common_zoo as Z
import units
import C15


def check(c):
    c.build(units.UNITS, plugins=units.plugins())
    opt = {"lights": ("la", "lp", "ld"), "model": True, "medium": True, "env": True}
    ss = Z.from_spec(c, ["tb", "md", "mp", "mx"], c.pick(2, 3), opt)
    tr = c.judge("zoo", Z.TRACE, ss, "all histories of replacements, saves and loads in the world of built-in components")
    c.corrupt_check(Z.TRACE, tr, Z.corrupt)
    if c.violations and not c.thorough:
        return
    ss = Z.from_spec(c, Z.ORDER, 5, opt, simulate=c.pick(4, 60))
    c.judge("zoo", Z.TRACE, ss, "random histories of the specification over all built-in components")
    ss = Z.scripts(c, c.pick(150, 4000), n_edits=6, fails=.05, saves=.5)
    c.judge("zoo", Z.TRACE, ss, "random histories with saves and loads")
    ss = [{"ops": [{"op": "Init"}] + [c.rng.choice([{"op": "Load", "n": c.rng.choice("abcd")}, {"op": "Save", "to": c.rng.choice(["good", "full", "nodir", "dir"])}]) for _ in range(c.rng.randint(2, 12))]} for _ in range(c.pick(100, 1000))]
    c.judge("life", C15.TRACE, ss, "saves to places that cannot be written")
    c.assumptions += ["a component's behaviour is observed through its public interface on a fixed set of inputs",
                      "rendering is compared with one thread and a fixed seed"]
