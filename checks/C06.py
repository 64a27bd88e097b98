import common_registry as R
import units


def check(c):
    c.build(units.UNITS, plugins=units.plugins())
    k = c.pick(4, 5)
    c.model_check("MCRegistry", "CONSTANT K = %d\nSPECIFICATION Spec\nINVARIANT Inv\nPROPERTY Stable\nCHECK_DEADLOCK FALSE\n" % c.pick(3, 4), "all histories")
    bs = c.behaviours("MCRegistry", "CONSTANT K = %d\nSPECIFICATION Spec\nCONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n" % c.pick(3, 3), "all histories of length 3")
    tr = c.judge("registry", R.TRACE, [R.from_model(c, b) for b in bs], "all histories of registrations, creations and plugin loads")
    c.corrupt_check(R.TRACE, tr[::-1], R.corrupt)
    bs = c.behaviours("MCRegistry", "CONSTANT K = 12\nSPECIFICATION Spec\nCONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n", "random behaviours", simulate=c.pick(20, 300), depth=14)
    c.judge("registry", R.TRACE, [R.from_model(c, b) for b in bs], "random behaviours of the specification")
    c.judge("registry", R.TRACE, R.histories(c, c.pick(500, 8000)), "random histories with plugins and directories")
