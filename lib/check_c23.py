import vlib
from vlib import Check
from pure_common import scenarios


def run():
    c = Check("C23")
    vlib.build("pose_driver")
    thorough = vlib.TIER == "thorough"
    exe = vlib.exe("pose_driver")
    first = lambda e: e["e"] == "new"
    f = scenarios(c, "CartMC", "CartMC" if thorough else "CartMCq", 40000 if thorough else 3000)
    vlib.conform(c, "replay", [exe, "replay", f, vlib.SEED], "CartTrace", first, size=1500)
    n = 40000 if thorough else 4000
    ev = vlib.conform(c, "random", [exe, "random", vlib.SEED, n], "CartTrace", first, size=1500)
    for e in ev[:6]:
        c.sample(e)
    return c.finish()
