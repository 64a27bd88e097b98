import common_tree as T


def check(c):
    T.run(c, "ref", 3, 4, {"ops": {"Get": 3, "Print": 1.5, "Save": 0.5, "LoadSer": 1}})
