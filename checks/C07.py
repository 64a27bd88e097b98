import common_tree as T


def check(c):
    T.run(c, "all", 2, 3, {"fail": 0.2, "failkid": 0.1, "fail_load": 0.08, "ops": {"Reset": 0.8, "LoadState": 1.2, "SaveState": 1}}, rnd=(700, 8000), rndlen=20)
