import vlib
from vlib import Check
from pure_common import scenarios


def run():
    c = Check("C19")
    vlib.build("diff_driver")
    thorough = vlib.TIER == "thorough"
    exe = vlib.exe("diff_driver")
    first = lambda e: e["e"] == "new"
    f = scenarios(c, "NumDiffMC", "NumDiffMC", 4000 if thorough else 3400)
    vlib.conform(c, "replay", [exe, "replay", f, vlib.SEED], "NumDiffTrace", first)
    ev = vlib.conform(c, "random", [exe, "random", vlib.SEED, 20000 if thorough else 2500], "NumDiffTrace", first)
    for e in ev[:6]:
        c.sample(e)
    return c.finish()
