import common_tree as T
import common_zoo as Z


def check(c):
    T.run(c, "ser", 3, 4, {"ops": {"Save": 5, "LoadSer": 6, "SaveState": 1, "LoadState": 1}})
    if c.violations and not c.thorough:
        return
    ss = Z.scripts(c, c.pick(150, 3000), n_edits=5, fails=0, saves=.8, nrender=1, base=["w"]) + Z.scripts(c, c.pick(50, 1000), n_edits=4, fails=0, saves=.8, nrender=1, base=["w", "q"])
    c.judge("zoo", Z.TRACE, ss, "copies of a world of built-in components")
