import common_tree as T
import common_zoo as Z


def check(c):
    T.run(c, "fail", 3, 4, {"replace": 0.7, "fail": 0.3, "failkid": 0.15, "unknown": 0.08, "badname": 0.08, "fail_load": 0.15,
                              "ops": {"Truncate": 1.5, "LoadState": 1.5, "SaveState": 1.5, "LoadSer": 3}})
    if c.violations and not c.thorough:
        return
    ss = Z.scripts(c, c.pick(200, 3000), n_edits=14, fails=.8, saves=.05, nrender=1)
    c.judge("zoo", Z.TRACE, ss, "failing loads of built-in components")
